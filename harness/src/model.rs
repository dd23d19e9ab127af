//! Reference model: the unmodified Optimism Isthmus EVM (`op-revm`) with MegaETH's documented
//! rules added from the outside, through a host wrapper and an inspector.
use crate::world::*;
use alloy_primitives::{keccak256, Address, Bytes, TxKind, B256, U256};
use mega_evm::{EvmTxRuntimeLimits, MegaSpecId, MegaTransaction, VolatileDataAccess};
use op_revm::{
    api::default_ctx::DefaultOp,
    handler::OpHandler, precompiles::OpPrecompiles, L1BlockInfo, OpContext, OpEvm, OpHaltReason,
    OpSpecId, OpTransactionError,
};
use revm::{
    bytecode::opcode as op,
    context::{
        journaled_state::JournalCheckpoint,
        result::{EVMError, ExecutionResult, InvalidTransaction},
        BlockEnv, Cfg, CfgEnv, ContextError, ContextSetters, ContextTr, Evm as RevmEvm, FrameStack,
        JournalTr, LocalContext, Transaction,
    },
    context_interface::{
        context::{SStoreResult, SelfDestructResult, StateLoad},
        journaled_state::AccountLoad,
        transaction::AuthorizationTr,
    },
    handler::{
        instructions::EthInstructions, EthFrame, EvmTr, FrameResult, Handler,
        PrecompileProvider,
    },
    inspector::{Inspector, InspectorHandler},
    interpreter::{
        interpreter::EthInterpreter,
        interpreter_types::{InputsTr, Jumps, LoopControl, MemoryTr},
        CallInputs, CallOutcome, CreateInputs, CreateOutcome, FrameInput, Gas, Host,
        InitialAndFloorGas, InputsImpl, InstructionResult, Interpreter, InterpreterAction,
        InterpreterResult,
    },
    precompile::Precompiles,
    primitives::Log,
    state::EvmState,
    Database, Journal,
};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

/// Specs are totally ordered by activation.
pub fn at_least(spec: MegaSpecId, min: MegaSpecId) -> bool {
    rank(spec) >= rank(min)
}
pub fn rank(s: MegaSpecId) -> u8 {
    match s {
        MegaSpecId::EQUIVALENCE => 0,
        MegaSpecId::MINI_REX => 1,
        MegaSpecId::REX => 2,
        MegaSpecId::REX1 => 3,
        MegaSpecId::REX2 => 4,
        MegaSpecId::REX3 => 5,
        _ => 6,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dim {
    Data,
    Kv,
    Compute,
    Growth,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Over {
    pub dim: Dim,
    pub limit: u64,
    pub used: u64,
}

#[derive(Clone, Debug, Default)]
struct Frame {
    data: i64,
    kv: i64,
    growth: i64,
    /// The account whose code runs in this frame was already counted as updated when the frame
    /// was entered.
    counted: bool,
    create: bool,
    entered: bool,
    gas_at_return: Option<u64>,
}

/// Documented per-transaction limits of each spec.
pub fn spec_limits(spec: MegaSpecId) -> EvmTxRuntimeLimits {
    let none = u64::MAX;
    match rank(spec) {
        0 => EvmTxRuntimeLimits {
            tx_data_size_limit: none,
            tx_kv_updates_limit: none,
            tx_compute_gas_limit: none,
            tx_state_growth_limit: none,
            block_env_access_compute_gas_limit: none,
            oracle_access_compute_gas_limit: none,
        },
        1 => EvmTxRuntimeLimits {
            tx_data_size_limit: 3_276_800,
            tx_kv_updates_limit: 125_000,
            tx_compute_gas_limit: 1_000_000_000,
            tx_state_growth_limit: none,
            block_env_access_compute_gas_limit: 20_000_000,
            oracle_access_compute_gas_limit: 1_000_000,
        },
        r => EvmTxRuntimeLimits {
            tx_data_size_limit: 13_107_200,
            tx_kv_updates_limit: 500_000,
            tx_compute_gas_limit: 200_000_000,
            tx_state_growth_limit: 1000,
            block_env_access_compute_gas_limit: 20_000_000,
            oracle_access_compute_gas_limit: if r >= 5 { 20_000_000 } else { 1_000_000 },
        },
    }
}

/// Facts about what an execution exercised, for non-triviality rules and distribution reports.
#[derive(Clone, Debug, Default)]
pub struct Facts {
    pub storage_charges: u32,
    pub scaled_charges: u32,
    pub frames: u32,
    pub child_failed: u32,
    pub max_depth: u32,
    pub volatile: bool,
    pub oracle: bool,
    pub capped: u32,
    pub logs: u32,
    pub creates: u32,
    pub deployed: u32,
    pub precompiles: u32,
    pub sstores: u32,
    pub oracle_sloads: u32,
    pub selfdestructs: u32,
    pub rolled_back: bool,
    pub steps: u64,
    /// Gas charged before the first frame.
    pub initial: u64,
    /// Outcome of a keyless deployment.
    pub keyless: &'static str,
    /// Gas the inner transaction of a keyless deployment needs before refunds.
    pub inner_peak: u64,
}

/// Transactions that take more instructions than this are not judged.
pub const STEP_CAP: u64 = 60_000;

#[derive(Debug, Clone)]
pub struct Model {
    pub spec: MegaSpecId,
    /// With the custom precompiles.
    pub custom: bool,
    pub limits: EvmTxRuntimeLimits,
    pub compute_limit: u64,
    pub over: Option<Over>,
    pub data: i64,
    pub kv: i64,
    pub growth: i64,
    pub compute: u64,
    frames: Vec<Frame>,
    pub volatile: VolatileDataAccess,
    pub volatile_limit: Option<u64>,
    pub salt: Salt,
    pub buckets: BTreeMap<u32, u64>,
    /// Numbers of the blocks whose hashes were read.
    pub hashes: std::collections::BTreeSet<u64>,
    pub oracle: Rc<BTreeMap<U256, U256>>,
    pub hints: Vec<Hint>,
    deposit: bool,
    top: Option<JournalCheckpoint>,
    pub facts: Facts,
    /// State before the transaction, for keyless deployments.
    pub base: Option<MemDb>,
    inner: bool,
}

impl Model {
    pub fn new(spec: MegaSpecId, limits: EvmTxRuntimeLimits, salt: Salt, oracle: Rc<BTreeMap<U256, U256>>) -> Self {
        Self {
            spec,
            custom: false,
            limits,
            compute_limit: limits.tx_compute_gas_limit,
            over: None,
            data: 0,
            kv: 0,
            growth: 0,
            compute: 0,
            frames: vec![],
            volatile: VolatileDataAccess::empty(),
            volatile_limit: None,
            salt,
            buckets: Default::default(),
            hashes: Default::default(),
            oracle,
            hints: vec![],
            deposit: false,
            top: None,
            facts: Default::default(),
            base: None,
            inner: false,
        }
    }
    fn on(&self, s: MegaSpecId) -> bool {
        at_least(self.spec, s)
    }
    fn mini(&self) -> bool {
        self.on(MegaSpecId::MINI_REX)
    }
    fn rex(&self) -> bool {
        self.on(MegaSpecId::REX)
    }

    // ---- accounting -------------------------------------------------------------------------
    fn add(&mut self, data: i64, kv: i64, growth: i64) {
        self.data += data;
        self.kv += kv;
        self.growth += growth;
        if let Some(f) = self.frames.last_mut() {
            f.data += data;
            f.kv += kv;
            f.growth += growth;
        }
    }
    fn check(&mut self) -> bool {
        if self.over.is_none() {
            let d = self.data.max(0) as u64;
            let k = self.kv.max(0) as u64;
            let g = self.growth.max(0) as u64;
            let l = &self.limits;
            self.over = if d > l.tx_data_size_limit {
                Some(Over { dim: Dim::Data, limit: l.tx_data_size_limit, used: d })
            } else if k > l.tx_kv_updates_limit {
                Some(Over { dim: Dim::Kv, limit: l.tx_kv_updates_limit, used: k })
            } else if self.compute > self.compute_limit {
                Some(Over { dim: Dim::Compute, limit: self.compute_limit, used: self.compute })
            } else if g > l.tx_state_growth_limit {
                Some(Over { dim: Dim::Growth, limit: l.tx_state_growth_limit, used: g })
            } else {
                None
            };
        }
        self.over.is_some()
    }
    fn burn(&mut self, gas: u64) -> bool {
        self.compute = self.compute.saturating_add(gas);
        self.check()
    }
    fn mark(&mut self, what: VolatileDataAccess, oracle: bool) {
        self.volatile.insert(what);
        let l = if oracle {
            self.facts.oracle = true;
            self.limits.oracle_access_compute_gas_limit
        } else {
            self.facts.volatile = true;
            self.limits.block_env_access_compute_gas_limit
        };
        self.volatile_limit = Some(self.volatile_limit.map_or(l, |x| x.min(l)));
    }
    fn detain(&mut self) {
        if let Some(l) = self.volatile_limit {
            self.compute_limit = self.compute_limit.min(l);
        }
    }
    fn multiplier(&mut self, bucket: u32) -> u64 {
        let caps = self.salt.caps.borrow();
        let cap = caps[bucket as usize % caps.len()];
        drop(caps);
        *self.buckets.entry(bucket).or_insert(cap / 256)
    }
    fn charge(&mut self, bucket: u32, mini: u64, rex: u64) -> u64 {
        let m = self.multiplier(bucket);
        self.facts.storage_charges += 1;
        if m > 1 {
            self.facts.scaled_charges += 1;
        }
        if self.rex() {
            rex * (m - 1)
        } else {
            mini * m
        }
    }
    fn slot_gas(&mut self, a: Address, k: U256) -> u64 {
        self.charge(bucket_of_slot(a, k), 2_000_000, 20_000)
    }
    fn account_gas(&mut self, a: Address) -> u64 {
        self.charge(bucket_of_account(a), 2_000_000, 25_000)
    }
    fn create_gas(&mut self, a: Address) -> u64 {
        self.charge(bucket_of_account(a), 2_000_000, 32_000)
    }

    fn start_tx(&mut self, tx: &MegaTransaction, beneficiary: Address) {
        self.over = None;
        self.data = 0;
        self.kv = 0;
        self.growth = 0;
        self.compute = 0;
        self.frames.clear();
        self.volatile = VolatileDataAccess::empty();
        self.volatile_limit = None;
        self.top = None;
        self.deposit = tx.tx_type() == 0x7e;
        self.facts = Default::default();
        self.hints.clear();
        if self.on(MegaSpecId::REX1) {
            self.compute_limit = self.limits.tx_compute_gas_limit;
        }
        if !self.mini() {
            return;
        }
        if tx.base.caller == beneficiary || tx.base.kind == TxKind::Call(beneficiary) {
            self.mark(VolatileDataAccess::BENEFICIARY_BALANCE, false);
            self.facts.volatile = false;
        }
        // size of an access-list item as alloy reports it (in-memory representation)
        let acl = tx.base.access_list.iter().map(|i| i.size() as u64).sum::<u64>();
        let auths = tx.base.authorization_list.len() as u64;
        let known = tx.base.authorization_list.iter().filter(|a| a.authority().is_some()).count();
        self.data = (110 + tx.base.data.len() as u64 + acl + 101 * auths) as i64
            + 40 * known as i64
            + 40;
        self.kv = known as i64 + 1;
        self.check();
    }

    // ---- frames -----------------------------------------------------------------------------
    fn enter(&mut self, create: bool, transfer: bool, new_account: bool) -> bool {
        let parent_counted = self.frames.last().map(|f| f.counted);
        self.facts.frames += 1;
        self.frames.push(Frame { counted: create || transfer, create, ..Default::default() });
        self.facts.max_depth = self.facts.max_depth.max(self.frames.len() as u32);
        if create || transfer {
            if parent_counted == Some(false) {
                self.add(40, 1, 0);
            }
            if transfer {
                self.add(40, 1, 0);
            }
        }
        if create || (transfer && new_account) {
            self.add(0, 0, 1);
        }
        self.check()
    }
    /// Returns true when the transaction is over a limit.
    fn leave(&mut self, ok: bool) -> bool {
        let over = self.check();
        let f = self.frames.pop().expect("frame");
        if ok && !over {
            if let Some(p) = self.frames.last_mut() {
                p.data += f.data;
                p.kv += f.kv;
                p.growth += f.growth;
            }
        } else {
            self.facts.child_failed += 1;
            self.data -= f.data;
            self.kv -= f.kv;
            self.growth -= f.growth;
        }
        self.check()
    }
}

// ---- host ---------------------------------------------------------------------------------------

pub struct RefCtx<DB: Database> {
    pub inner: OpContext<DB>,
    pub m: Rc<RefCell<Model>>,
}

impl<DB: Database> RefCtx<DB> {
    fn env(&self, w: VolatileDataAccess) {
        let mut m = self.m.borrow_mut();
        if m.mini() {
            m.mark(w, false);
        }
    }
    fn acct(&self, a: Address) {
        let mut m = self.m.borrow_mut();
        if m.mini() && self.inner.block.beneficiary == a {
            m.mark(VolatileDataAccess::BENEFICIARY_BALANCE, false);
        }
    }
}

impl<DB: Database> Host for RefCtx<DB> {
    fn basefee(&self) -> U256 {
        self.env(VolatileDataAccess::BASE_FEE);
        self.inner.basefee()
    }
    fn blob_gasprice(&self) -> U256 {
        self.env(VolatileDataAccess::BLOB_BASE_FEE);
        self.inner.blob_gasprice()
    }
    fn gas_limit(&self) -> U256 {
        self.env(VolatileDataAccess::GAS_LIMIT);
        self.inner.gas_limit()
    }
    fn difficulty(&self) -> U256 {
        self.env(VolatileDataAccess::DIFFICULTY);
        self.inner.difficulty()
    }
    fn prevrandao(&self) -> Option<U256> {
        self.env(VolatileDataAccess::PREV_RANDAO);
        self.inner.prevrandao()
    }
    fn block_number(&self) -> U256 {
        self.env(VolatileDataAccess::BLOCK_NUMBER);
        self.inner.block_number()
    }
    fn timestamp(&self) -> U256 {
        self.env(VolatileDataAccess::TIMESTAMP);
        self.inner.timestamp()
    }
    fn beneficiary(&self) -> Address {
        self.env(VolatileDataAccess::COINBASE);
        self.inner.beneficiary()
    }
    fn blob_hash(&self, n: usize) -> Option<U256> {
        self.env(VolatileDataAccess::BLOB_HASH);
        self.inner.blob_hash(n)
    }
    fn block_hash(&mut self, n: u64) -> Option<B256> {
        self.env(VolatileDataAccess::BLOCK_HASH);
        self.m.borrow_mut().hashes.insert(n);
        self.inner.block_hash(n)
    }
    fn chain_id(&self) -> U256 {
        self.inner.chain_id()
    }
    fn effective_gas_price(&self) -> U256 {
        self.inner.effective_gas_price()
    }
    fn caller(&self) -> Address {
        self.inner.caller()
    }
    fn max_initcode_size(&self) -> usize {
        self.inner.max_initcode_size()
    }
    fn selfdestruct(&mut self, a: Address, t: Address) -> Option<StateLoad<SelfDestructResult>> {
        self.m.borrow_mut().facts.selfdestructs += 1;
        self.inner.selfdestruct(a, t)
    }
    fn log(&mut self, l: Log) {
        self.inner.log(l)
    }
    fn sstore(&mut self, a: Address, k: U256, v: U256) -> Option<StateLoad<SStoreResult>> {
        self.inner.sstore(a, k, v)
    }
    fn sload(&mut self, a: Address, k: U256) -> Option<StateLoad<U256>> {
        let mini = self.m.borrow().mini();
        if mini && a == ORACLE {
            let mut m = self.m.borrow_mut();
            m.facts.oracle_sloads += 1;
            if m.on(MegaSpecId::REX3) && self.inner.tx.base.caller != SYSTEM {
                m.mark(VolatileDataAccess::ORACLE, true);
            }
            if let Some(v) = m.oracle.get(&k) {
                return Some(StateLoad::new(*v, true));
            }
            drop(m);
            return self.inner.sload(a, k).map(|l| StateLoad::new(l.data, true));
        }
        self.inner.sload(a, k)
    }
    fn tstore(&mut self, a: Address, k: U256, v: U256) {
        self.inner.tstore(a, k, v)
    }
    fn tload(&mut self, a: Address, k: U256) -> U256 {
        self.inner.tload(a, k)
    }
    fn balance(&mut self, a: Address) -> Option<StateLoad<U256>> {
        self.acct(a);
        self.inner.balance(a)
    }
    fn load_account_delegated(&mut self, a: Address) -> Option<StateLoad<AccountLoad>> {
        self.acct(a);
        self.inner.load_account_delegated(a)
    }
    fn load_account_code(&mut self, a: Address) -> Option<StateLoad<Bytes>> {
        self.acct(a);
        self.inner.load_account_code(a)
    }
    fn load_account_code_hash(&mut self, a: Address) -> Option<StateLoad<B256>> {
        self.acct(a);
        self.inner.load_account_code_hash(a)
    }
}

impl<DB: Database> ContextTr for RefCtx<DB> {
    type Block = BlockEnv;
    type Tx = MegaTransaction;
    type Cfg = CfgEnv<OpSpecId>;
    type Db = DB;
    type Journal = Journal<DB>;
    type Chain = L1BlockInfo;
    type Local = LocalContext;
    fn tx(&self) -> &Self::Tx {
        &self.inner.tx
    }
    fn block(&self) -> &Self::Block {
        &self.inner.block
    }
    fn cfg(&self) -> &Self::Cfg {
        &self.inner.cfg
    }
    fn journal(&self) -> &Self::Journal {
        &self.inner.journaled_state
    }
    fn journal_mut(&mut self) -> &mut Self::Journal {
        &mut self.inner.journaled_state
    }
    fn db(&self) -> &Self::Db {
        &self.inner.journaled_state.database
    }
    fn db_mut(&mut self) -> &mut Self::Db {
        &mut self.inner.journaled_state.database
    }
    fn chain(&self) -> &Self::Chain {
        &self.inner.chain
    }
    fn chain_mut(&mut self) -> &mut Self::Chain {
        &mut self.inner.chain
    }
    fn local(&self) -> &Self::Local {
        &self.inner.local
    }
    fn local_mut(&mut self) -> &mut Self::Local {
        &mut self.inner.local
    }
    fn error(&mut self) -> &mut Result<(), ContextError<DB::Error>> {
        &mut self.inner.error
    }
    fn tx_journal_mut(&mut self) -> (&Self::Tx, &mut Self::Journal) {
        (&self.inner.tx, &mut self.inner.journaled_state)
    }
    fn tx_local_mut(&mut self) -> (&Self::Tx, &mut Self::Local) {
        (&self.inner.tx, &mut self.inner.local)
    }
}
impl<DB: Database> ContextSetters for RefCtx<DB> {
    fn set_tx(&mut self, tx: MegaTransaction) {
        self.inner.tx = tx;
    }
    fn set_block(&mut self, b: BlockEnv) {
        self.inner.block = b;
    }
}

// ---- precompiles --------------------------------------------------------------------------------

#[derive(Clone)]
pub struct RefPre {
    op: OpPrecompiles,
    set: &'static Precompiles,
    m: Rc<RefCell<Model>>,
}

/// Precompiles that a user of the factory may add: one more, and one in place of a standard one.
pub const CUSTOM_AT: [u8; 2] = [0x12, 0x04];
pub fn custom_precompile(input: &[u8], gas: u64) -> revm::precompile::PrecompileResult {
    use revm::precompile::{PrecompileError, PrecompileOutput};
    let cost = 300 + 7 * input.len() as u64;
    if gas < cost {
        return Err(PrecompileError::OutOfGas);
    }
    if input.first() == Some(&0xff) {
        return Err(PrecompileError::Other("refused".into()));
    }
    let mut out = input.to_vec();
    out.reverse();
    out.push(out.len() as u8);
    Ok(PrecompileOutput::new(cost, out.into()))
}

/// Isthmus precompiles with the repriced modexp and KZG of MiniRex.
fn precompile_set(mini: bool, custom: bool) -> &'static Precompiles {
    use std::sync::OnceLock;
    static CUSTOM: [OnceLock<Precompiles>; 2] = [OnceLock::new(), OnceLock::new()];
    if custom {
        return CUSTOM[mini as usize].get_or_init(|| {
            let mut p = precompile_set(mini, false).clone();
            p.extend(CUSTOM_AT.map(|k| revm::precompile::PrecompileWithAddress(addr(Ref::P(k)), custom_precompile)));
            p
        });
    }
    static MINI: OnceLock<Precompiles> = OnceLock::new();
    if !mini {
        return op_revm::precompiles::isthmus();
    }
    MINI.get_or_init(|| {
        use revm::precompile::{PrecompileError, PrecompileWithAddress};
        let mut p = op_revm::precompiles::isthmus().clone();
        p.extend([
            revm::precompile::modexp::OSAKA,
            PrecompileWithAddress(addr(Ref::P(0x0a)), |input, gas| {
                if gas < 100_000 {
                    return Err(PrecompileError::OutOfGas);
                }
                revm::precompile::kzg_point_evaluation::run(input, gas).map(|mut o| {
                    o.gas_used = 100_000;
                    o
                })
            }),
        ]);
        p
    })
}

impl<DB: Database> PrecompileProvider<RefCtx<DB>> for RefPre {
    type Output = InterpreterResult;
    fn set_spec(&mut self, _s: OpSpecId) -> bool {
        false
    }
    fn run(
        &mut self,
        ctx: &mut RefCtx<DB>,
        a: &Address,
        inputs: &InputsImpl,
        is_static: bool,
        gas: u64,
    ) -> Result<Option<InterpreterResult>, String> {
        let mut p = revm::handler::EthPrecompiles {
            precompiles: self.set,
            spec: revm::primitives::hardfork::SpecId::PRAGUE,
        };
        let _ = &self.op;
        let r = PrecompileProvider::<OpContext<DB>>::run(&mut p, &mut ctx.inner, a, inputs, is_static, gas)?;
        if let Some(o) = &r {
            let mut m = self.m.borrow_mut();
            m.facts.precompiles += 1;
            if m.mini() && o.result.is_ok() {
                let spent = o.gas.spent();
                m.compute = m.compute.saturating_add(spent);
                m.check();
            }
        }
        Ok(r)
    }
    fn warm_addresses(&self) -> Box<impl Iterator<Item = Address>> {
        Box::new(self.set.addresses().cloned())
    }
    fn contains(&self, a: &Address) -> bool {
        self.set.contains(a)
    }
}

// ---- inspector ----------------------------------------------------------------------------------

pub struct Insp {
    m: Rc<RefCell<Model>>,
    gas: u64,
    skip: bool,
    fresh: bool,
    pending: Pending,
}

#[derive(Clone, Copy, Default)]
struct Pending {
    op: u8,
    sstore: Option<(U256, U256, U256)>,
    log: Option<(u64, u64)>,
    value: bool,
}

fn peek(i: &Interpreter<EthInterpreter>, n: usize) -> Option<U256> {
    let d = i.stack.data();
    if n < d.len() {
        Some(d[d.len() - 1 - n])
    } else {
        None
    }
}

fn word_addr(w: U256) -> Address {
    Address::from_slice(&w.to_be_bytes::<32>()[12..])
}

fn is_empty<DB: Database>(ctx: &mut RefCtx<DB>, a: Address) -> bool {
    if let Some(acc) = ctx.inner.journaled_state.state.get(&a) {
        return acc.info.is_empty();
    }
    match ctx.inner.journaled_state.database.basic(a) {
        Ok(Some(i)) => i.is_empty(),
        _ => true,
    }
}

fn slot_values<DB: Database>(ctx: &mut RefCtx<DB>, a: Address, k: U256) -> (U256, U256) {
    if let Some(acc) = ctx.inner.journaled_state.state.get(&a) {
        if let Some(s) = acc.storage.get(&k) {
            return (s.original_value(), s.present_value());
        }
        if acc.is_created() {
            return (U256::ZERO, U256::ZERO);
        }
    }
    let v = ctx.inner.journaled_state.database.storage(a, k).unwrap_or_default();
    (v, v)
}

impl Insp {
    fn stop(&mut self, i: &mut Interpreter<EthInterpreter>) {
        // Over a limit: this frame ends here and keeps its gas.
        let gas = i.gas;
        let act = InterpreterAction::Return(InterpreterResult::new(
            InstructionResult::Revert,
            Bytes::new(),
            gas,
        ));
        if i.bytecode.action().is_some() {
            *i.bytecode.action() = Some(act);
        } else {
            i.bytecode.set_action(act);
            self.skip = true;
        }
    }
    fn fail(&mut self, i: &mut Interpreter<EthInterpreter>, r: InstructionResult) {
        i.halt(r);
        self.skip = true;
    }
    fn pay(&mut self, i: &mut Interpreter<EthInterpreter>, g: u64) -> bool {
        if i.gas.record_cost(g) {
            true
        } else {
            self.fail(i, InstructionResult::OutOfGas);
            false
        }
    }
}

impl<DB: Database> Inspector<RefCtx<DB>, EthInterpreter> for Insp {
    fn initialize_interp(&mut self, _i: &mut Interpreter<EthInterpreter>, _c: &mut RefCtx<DB>) {
        let m = self.m.clone();
        let mut m = m.borrow_mut();
        self.fresh = true;
        if !m.mini() {
            return;
        }
        let f = m.frames.last_mut().expect("frame");
        if f.create && !f.entered {
            f.entered = true;
            m.add(40, 1, 0);
            m.facts.creates += 1;
            m.check();
        }
    }

    fn step(&mut self, i: &mut Interpreter<EthInterpreter>, ctx: &mut RefCtx<DB>) {
        let mm = self.m.clone();
        let mut m = mm.borrow_mut();
        self.gas = i.gas.remaining();
        self.skip = false;
        m.facts.steps += 1;
        let opc = i.bytecode.opcode();
        self.pending = Pending { op: opc, ..Default::default() };
        if m.facts.steps > STEP_CAP {
            drop(m);
            return self.fail(i, InstructionResult::OutOfGas);
        }
        if !m.mini() {
            return;
        }
        let fresh = std::mem::replace(&mut self.fresh, false);
        if m.over.is_some() || (fresh && m.check()) {
            drop(m);
            return self.stop(i);
        }
        let me = i.input.target_address();
        match opc {
            op::SSTORE => {
                if let (Some(k), Some(v)) = (peek(i, 0), peek(i, 1)) {
                    let (orig, cur) = slot_values(ctx, me, k);
                    self.pending.sstore = Some((orig, cur, v));
                    if orig.is_zero() && cur.is_zero() && !v.is_zero() {
                        let g = m.slot_gas(me, k);
                        if !self.pay(i, g) {
                            return;
                        }
                    }
                }
            }
            op::CALL | op::CALLCODE => {
                if let (Some(to), Some(v)) = (peek(i, 1), peek(i, 2)) {
                    self.pending.value = !v.is_zero();
                    if (opc == op::CALL || m.rex()) && !v.is_zero() {
                        let to = word_addr(to);
                        if is_empty(ctx, to) {
                            let g = m.account_gas(to);
                            if !self.pay(i, g) {
                                return;
                            }
                        }
                    }
                }
            }
            op::CREATE | op::CREATE2 => {
                let need = if opc == op::CREATE2 { 4 } else { 0 };
                if i.stack.len() < need {
                    // whichever of its failures comes first: a missing salt is found before gas
                    // is charged, after the length has been looked at
                    let cap = U256::from(ctx.inner.cfg.max_initcode_size());
                    let first = match (peek(i, 1), peek(i, 2)) {
                        (Some(off), Some(len)) => len <= cap && (len.is_zero() || off <= U256::from(u64::MAX)),
                        _ => true,
                    };
                    if first {
                        drop(m);
                        return self.fail(i, InstructionResult::StackUnderflow);
                    }
                } else {
                    let created = if opc == op::CREATE2 {
                        let (off, len, salt) = (peek(i, 1), peek(i, 2), peek(i, 3));
                        let (off, len) = (off.unwrap(), len.unwrap());
                        let cap = ctx.inner.cfg.max_initcode_size();
                        if len > U256::from(cap) || (!len.is_zero() && off > U256::from(u64::MAX)) {
                            // the opcode itself is going to fail
                            None
                        } else {
                            let (off, len) = (off.saturating_to::<usize>(), len.to::<usize>());
                            let mut code = vec![0u8; len];
                            let size = i.memory.size();
                            if off < size && len > 0 {
                                let n = len.min(size - off);
                                code[..n].copy_from_slice(&i.memory.slice(off..off + n));
                            }
                            Some(me.create2(salt.unwrap().to_be_bytes::<32>(), keccak256(&code)))
                        }
                    } else {
                        let nonce = ctx.inner.journaled_state.state.get(&me).map(|a| a.info.nonce);
                        Some(me.create(nonce.expect("running contract is loaded")))
                    };
                    if let Some(a) = created {
                        let g = if m.rex() { m.create_gas(a) } else { m.account_gas(a) };
                        if !self.pay(i, g) {
                            return;
                        }
                    }
                }
            }
            op::LOG0..=op::LOG4 => {
                if let Some(len) = peek(i, 1) {
                    if len <= U256::from(u64::MAX) {
                        let n = (opc - op::LOG0) as u64;
                        let len = len.to::<u64>();
                        self.pending.log = Some((n, len));
                        match len.checked_mul(80).and_then(|x| x.checked_add(3750 * n)) {
                            Some(g) => {
                                if !self.pay(i, g) {
                                    return;
                                }
                            }
                            None => return self.fail(i, InstructionResult::OutOfGas),
                        }
                    }
                }
            }
            op::SELFDESTRUCT if !m.on(MegaSpecId::REX2) => {
                return self.fail(i, InstructionResult::InvalidFEOpcode);
            }
            _ => {}
        }
        self.gas = i.gas.remaining();
    }

    fn step_end(&mut self, i: &mut Interpreter<EthInterpreter>, _ctx: &mut RefCtx<DB>) {
        if std::mem::replace(&mut self.skip, false) {
            return;
        }
        let mm = self.m.clone();
        let mut m = mm.borrow_mut();
        if !m.mini() {
            return;
        }
        let p = self.pending;
        if let Some(InterpreterAction::Return(r)) = i.bytecode.action() {
            if r.result.is_error() {
                return;
            }
        }
        // compute gas of the opcode: everything it cost except what a child frame may spend
        let child = match i.bytecode.action() {
            Some(InterpreterAction::NewFrame(FrameInput::Call(c))) => c.gas_limit,
            Some(InterpreterAction::NewFrame(FrameInput::Create(c))) => c.gas_limit,
            _ => 0,
        };
        let cost = self.gas.saturating_sub(i.gas.remaining()).saturating_sub(child);
        if m.burn(cost) {
            // nothing was forwarded: the frame is not entered
            let stipend = if p.value { 2300 } else { 0 };
            i.gas.erase_cost(child.saturating_sub(stipend));
            drop(m);
            return self.stop(i);
        }
        if let Some((orig, cur, new)) = p.sstore {
            m.facts.sstores += 1;
            match (orig.is_zero(), cur.is_zero(), new.is_zero()) {
                (true, true, false) => m.add(0, 0, 1),
                (true, false, true) => m.add(0, 0, -1),
                _ => {}
            }
            if orig == cur && new != orig {
                m.add(40, 1, 0);
            } else if orig != cur && new == orig {
                m.add(-40, -1, 0);
            }
            if m.check() {
                drop(m);
                return self.stop(i);
            }
        }
        if let Some((n, len)) = p.log {
            m.facts.logs += 1;
            m.add((32 * n + len) as i64, 0, 0);
            if m.check() {
                drop(m);
                return self.stop(i);
            }
        }
        match p.op {
            op::TIMESTAMP
            | op::NUMBER
            | op::COINBASE
            | op::DIFFICULTY
            | op::GASLIMIT
            | op::BASEFEE
            | op::BLOCKHASH
            | op::BLOBBASEFEE
            | op::BLOBHASH
            | op::BALANCE
            | op::EXTCODESIZE
            | op::EXTCODECOPY
            | op::EXTCODEHASH => m.detain(),
            op::SLOAD if m.on(MegaSpecId::REX3) => m.detain(),
            _ => {}
        }
        // 98/100 forwarding
        let capped = match p.op {
            op::CALL | op::CREATE | op::CREATE2 => true,
            op::CALLCODE | op::DELEGATECALL | op::STATICCALL => m.rex(),
            _ => false,
        };
        if capped {
            let stipend = if p.value { 2300u64 } else { 0 };
            let left = i.gas.remaining();
            let lim = match i.bytecode.action() {
                Some(InterpreterAction::NewFrame(FrameInput::Call(c))) => Some(&mut c.gas_limit),
                Some(InterpreterAction::NewFrame(FrameInput::Create(c))) => Some(&mut c.gas_limit),
                _ => None,
            };
            if let Some(lim) = lim {
                let fwd = *lim - stipend;
                let avail = left as u128 + fwd as u128;
                let cap = (avail - avail * 2 / 100) as u64;
                if fwd > cap {
                    *lim = cap + stipend;
                    i.gas.erase_cost(fwd - cap);
                    m.facts.capped += 1;
                }
            }
        }
        // end of a frame
        let create = m.frames.last().map(|f| f.create).unwrap_or(false);
        let mut over = false;
        if let Some(InterpreterAction::Return(r)) = i.bytecode.action() {
            if create && r.result.is_ok() {
                let n = r.output.len() as u64;
                if !r.gas.record_cost(10_000 * n) {
                    r.result = InstructionResult::OutOfGas;
                } else {
                    m.add(n as i64, 0, 0);
                    over = m.check();
                }
            }
            let rem = r.gas.remaining();
            if let Some(f) = m.frames.last_mut() {
                f.gas_at_return = Some(rem);
            }
            if over {
                // keeps the gas left after the deposit charge
                let gas = r.gas;
                *r = InterpreterResult::new(InstructionResult::Revert, Bytes::new(), gas);
            }
        }
    }

    fn call(&mut self, ctx: &mut RefCtx<DB>, inputs: &mut CallInputs) -> Option<CallOutcome> {
        let mm = self.m.clone();
        let mut m = mm.borrow_mut();
        if !m.mini() {
            return None;
        }
        if m.frames.is_empty() {
            let j = ctx.journal_mut();
            let cp = j.checkpoint();
            j.checkpoint_commit();
            m.top = Some(cp);
        }
        if !m.on(MegaSpecId::REX3) && inputs.target_address == ORACLE && inputs.caller != SYSTEM {
            m.mark(VolatileDataAccess::ORACLE, true);
            m.detain();
        }
        if m.on(MegaSpecId::REX2) && inputs.target_address == ORACLE {
            use alloy_sol_types::SolCall;
            alloy_sol_types::sol! { function sendHint(bytes32 topic, bytes data); }
            let bytes = inputs.input.bytes(ctx);
            if let Ok(h) = sendHintCall::abi_decode(&bytes) {
                m.hints.push((inputs.caller, h.topic, h.data));
            }
        }
        if m.frames.is_empty() && !m.inner && m.on(MegaSpecId::REX2) && inputs.target_address == KEYLESS && !m.check() {
            use alloy_sol_types::SolCall;
            let bytes = inputs.input.bytes(ctx);
            if let Ok(c) = crate::scen::keylessDeployCall::abi_decode(&bytes) {
                m.enter(false, false, false);
                let r = keyless(&mut m, ctx, inputs, &c.keylessDeploymentTransaction, c.gasLimitOverride);
                return Some(CallOutcome::new(r, inputs.return_memory_offset.clone()));
            }
        }
        let transfer = inputs.transfers_value();
        let fresh_account = transfer && is_empty(ctx, inputs.target_address);
        if m.enter(false, transfer, fresh_account) {
            return Some(CallOutcome::new(
                InterpreterResult::new(
                    InstructionResult::Revert,
                    Bytes::new(),
                    Gas::new(inputs.gas_limit),
                ),
                inputs.return_memory_offset.clone(),
            ));
        }
        None
    }

    fn call_end(&mut self, ctx: &mut RefCtx<DB>, _inputs: &CallInputs, o: &mut CallOutcome) {
        let mm = self.m.clone();
        let mut m = mm.borrow_mut();
        self.fresh = true;
        if !m.mini() {
            return;
        }
        let ok = o.result.result.is_ok();
        if m.leave(ok) {
            let top = m.frames.is_empty();
            if top && ok {
                let cp = m.top.expect("checkpoint");
                let j = ctx.journal_mut();
                j.checkpoint();
                j.checkpoint_revert(cp);
                m.facts.rolled_back = true;
            }
            o.result.result = if top && m.deposit {
                InstructionResult::OutOfGas
            } else {
                InstructionResult::Revert
            };
            o.result.output = Bytes::new();
        }
    }

    fn create(&mut self, ctx: &mut RefCtx<DB>, inputs: &mut CreateInputs) -> Option<CreateOutcome> {
        let mm = self.m.clone();
        let mut m = mm.borrow_mut();
        if !m.mini() {
            return None;
        }
        let top = m.frames.is_empty();
        if top {
            let j = ctx.journal_mut();
            let cp = j.checkpoint();
            j.checkpoint_commit();
            m.top = Some(cp);
        }
        if m.enter(true, false, false) {
            if top {
                use_nonce(ctx, inputs.caller);
            }
            return Some(CreateOutcome::new(
                InterpreterResult::new(
                    InstructionResult::Revert,
                    Bytes::new(),
                    Gas::new(inputs.gas_limit),
                ),
                None,
            ));
        }
        None
    }

    fn create_end(&mut self, ctx: &mut RefCtx<DB>, inputs: &CreateInputs, o: &mut CreateOutcome) {
        let mm = self.m.clone();
        let mut m = mm.borrow_mut();
        self.fresh = true;
        if !m.mini() {
            return;
        }
        if let Some(before) = m.frames.last().and_then(|f| f.gas_at_return) {
            let deposit = before.saturating_sub(o.result.gas.remaining());
            m.burn(deposit);
        }
        let ok = o.result.result.is_ok();
        if ok {
            m.facts.deployed += 1;
        }
        if m.leave(ok) {
            let top = m.frames.is_empty();
            if top && ok {
                let cp = m.top.expect("checkpoint");
                let caller = inputs.caller;
                let nonce = ctx.journal_mut().state.get(&caller).map(|a| a.info.nonce);
                let j = ctx.journal_mut();
                j.checkpoint();
                j.checkpoint_revert(cp);
                if let (false, Some(n), Some(a)) = (m.deposit, nonce, j.state.get_mut(&caller)) {
                    a.info.nonce = n;
                    a.mark_touch();
                }
                m.facts.rolled_back = true;
            }
            o.address = None;
            o.result.result = if top && m.deposit {
                InstructionResult::OutOfGas
            } else {
                InstructionResult::Revert
            };
            o.result.output = Bytes::new();
        }
    }
}

// ---- keyless deployment -------------------------------------------------------------------------

alloy_sol_types::sol! {
    error MalformedEncoding();
    error NotContractCreation();
    error NotPreEIP155();
    error NonZeroTxNonce(uint64 txNonce);
    error NoEtherTransfer();
    error InvalidSignature();
    error InsufficientBalance();
    error ContractAlreadyExists();
    error SignerNonceTooHigh(uint64 signerNonce);
    error ExecutionReverted(uint64 gasUsed, bytes output);
    error ExecutionHalted(uint64 gasUsed);
    error EmptyCodeDeployed(uint64 gasUsed);
    error GasLimitTooLow(uint64 txGasLimit, uint64 providedGasLimit);
    error InternalError(string message);
}

/// What `keylessDeploy` does, as documented: the signed creation runs as a transaction of its own
/// with the overridden gas limit and the signer's nonce taken as zero; its effects become part of
/// the outer transaction.
fn keyless<DB: Database>(
    m: &mut Model,
    ctx: &mut RefCtx<DB>,
    inputs: &CallInputs,
    raw: &Bytes,
    over: U256,
) -> InterpreterResult {
    use alloy_consensus::{transaction::RlpEcdsaDecodableTx, Transaction, TxLegacy};
    use alloy_sol_types::{SolCall, SolError};
    let mut gas = Gas::new(inputs.gas_limit);
    if !gas.record_cost(100_000) {
        m.facts.keyless = "no gas for the overhead";
        return InterpreterResult::new(InstructionResult::OutOfGas, Bytes::new(), Gas::new_spent(inputs.gas_limit));
    }
    if m.on(MegaSpecId::REX3) && m.burn(100_000) {
        m.facts.keyless = "overhead over the compute limit";
        return InterpreterResult::new(InstructionResult::Revert, Bytes::new(), gas);
    }
    macro_rules! err {
        ($n:expr, $e:expr) => {{
            m.facts.keyless = $n;
            return InterpreterResult::new(InstructionResult::Revert, $e.abi_encode().into(), gas);
        }};
    }
    if !inputs.value.get().is_zero() {
        err!("NoEtherTransfer", NoEtherTransfer {});
    }
    let Ok(tx) = TxLegacy::rlp_decode_signed(&mut raw.as_ref()) else { err!("MalformedEncoding", MalformedEncoding {}) };
    if !tx.tx().to.is_create() {
        err!("NotContractCreation", NotContractCreation {});
    }
    if tx.tx().chain_id.is_some() {
        err!("NotPreEIP155", NotPreEIP155 {});
    }
    if tx.nonce() != 0 {
        err!("NonZeroTxNonce", NonZeroTxNonce { txNonce: tx.nonce() });
    }
    let limit: u64 = over.saturating_to();
    if limit < tx.gas_limit() {
        err!("GasLimitTooLow", GasLimitTooLow { txGasLimit: tx.gas_limit(), providedGasLimit: limit });
    }
    let Ok(signer) = tx.recover_signer() else { err!("InvalidSignature", InvalidSignature {}) };
    let at = signer.create(0);
    let mut db = m.base.clone().expect("base state");
    db.apply(&ctx.inner.journaled_state.state);
    let (balance, nonce) = db.accounts.get(&signer).map(|a| (a.balance, a.nonce)).unwrap_or_default();
    if nonce > 1 {
        err!("SignerNonceTooHigh", SignerNonceTooHigh { signerNonce: nonce });
    }
    if db.accounts.get(&at).is_some_and(|a| !a.code.is_empty()) {
        err!("ContractAlreadyExists", ContractAlreadyExists {});
    }
    let cost = U256::from(limit) * U256::from(tx.tx().gas_price);
    if cost.checked_add(tx.value()).is_none_or(|c| c > balance) {
        err!("InsufficientBalance", InsufficientBalance {});
    }
    if let Some(a) = db.accounts.get_mut(&signer) {
        a.nonce = 0;
    }
    let mut inner = Model::new(m.spec, spec_limits(m.spec), m.salt.clone(), m.oracle.clone());
    inner.inner = true;
    inner.buckets = m.buckets.clone();
    inner.hashes = m.hashes.clone();
    let inner = Rc::new(RefCell::new(inner));
    let mut t = MegaTransaction::new(revm::context::TxEnv {
        caller: signer,
        kind: TxKind::Create,
        data: tx.input().clone(),
        value: tx.value(),
        gas_limit: limit,
        gas_price: tx.tx().gas_price,
        nonce: 0,
        chain_id: None,
        ..Default::default()
    });
    t.enveloped_tx = Some(raw.clone());
    let mut cfg = CfgEnv::new_with_spec(m.spec);
    cfg.chain_id = ctx.inner.cfg.chain_id;
    let out = run_ref(&inner, db, &ctx.inner.block.clone(), &cfg, t);
    let inner = inner.borrow();
    m.buckets = inner.buckets.clone();
    m.hashes = inner.hashes.clone();
    m.hints.extend(inner.hints.iter().cloned());
    m.facts.steps += inner.facts.steps;
    let result = match out.result {
        Err(e) => err!("InternalError", InternalError { message: e }),
        Ok(r) => r,
    };
    let ret = |gas_used: u64, address: Address, error: Vec<u8>| {
        crate::scen::keylessDeployCall::abi_encode_returns(&crate::scen::keylessDeployReturn {
            gasUsed: gas_used,
            deployedAddress: address,
            errorData: error.into(),
        })
    };
    let used = result.gas_used();
    m.facts.inner_peak = used;
    let output = match result {
        ExecutionResult::Success { output, logs, gas_refunded, .. } => {
            m.facts.inner_peak += gas_refunded;
            if output.data().is_empty() {
                m.facts.keyless = "EmptyCodeDeployed";
                ret(used, Address::ZERO, EmptyCodeDeployed { gasUsed: used }.abi_encode())
            } else {
                m.facts.keyless = if logs.is_empty() { "deployed" } else { "deployed with logs" };
                for l in logs {
                    ctx.inner.journaled_state.log(l);
                }
                ret(used, at, vec![])
            }
        }
        ExecutionResult::Revert { .. } | ExecutionResult::Halt { .. } if out.over.is_some() => {
            m.facts.keyless = "ExecutionHalted by a limit";
            ret(used, Address::ZERO, ExecutionHalted { gasUsed: used }.abi_encode())
        }
        ExecutionResult::Revert { output, .. } => {
            m.facts.keyless = "ExecutionReverted";
            ret(used, Address::ZERO, ExecutionReverted { gasUsed: used, output }.abi_encode())
        }
        ExecutionResult::Halt { .. } => {
            m.facts.keyless = "ExecutionHalted";
            ret(used, Address::ZERO, ExecutionHalted { gasUsed: used }.abi_encode())
        }
    };
    for (a, acc) in out.state {
        if !acc.is_touched() {
            continue;
        }
        let e = ctx.inner.journaled_state.state.entry(a).or_default();
        e.mark_touch();
        if acc.is_selfdestructed() {
            e.info = Default::default();
            e.storage.clear();
            e.mark_created();
            continue;
        }
        let code = e.info.code.take().filter(|_| e.info.code_hash == acc.info.code_hash);
        e.info = acc.info.clone();
        e.info.code = e.info.code.take().or(code);
        if acc.is_created() {
            e.mark_created();
        }
        for (k, v) in acc.storage {
            e.storage.insert(k, v);
        }
    }
    InterpreterResult::new(InstructionResult::Return, output.into(), gas)
}

// ---- handler ------------------------------------------------------------------------------------

pub type RefEvm<DB> =
    OpEvm<RefCtx<DB>, Insp, EthInstructions<EthInterpreter, RefCtx<DB>>, RefPre, EthFrame<EthInterpreter>>;
pub type RefError<DB> = EVMError<<DB as Database>::Error, OpTransactionError>;

struct RefHandler<DB: Database> {
    op: OpHandler<RefEvm<DB>, RefError<DB>, EthFrame<EthInterpreter>>,
}

type FR = FrameResult;

impl<DB: Database> Handler for RefHandler<DB> {
    type Evm = RefEvm<DB>;
    type Error = RefError<DB>;
    type HaltReason = OpHaltReason;

    fn validate_env(&self, e: &mut Self::Evm) -> Result<(), Self::Error> {
        self.op.validate_env(e)
    }
    fn validate_against_state_and_deduct_caller(&self, e: &mut Self::Evm) -> Result<(), Self::Error> {
        self.op.validate_against_state_and_deduct_caller(e)
    }
    fn reimburse_caller(&self, e: &mut Self::Evm, r: &mut FR) -> Result<(), Self::Error> {
        self.op.reimburse_caller(e, r)
    }
    fn refund(&self, e: &mut Self::Evm, r: &mut FR, x: i64) {
        self.op.refund(e, r, x)
    }
    fn reward_beneficiary(&self, e: &mut Self::Evm, r: &mut FR) -> Result<(), Self::Error> {
        self.op.reward_beneficiary(e, r)
    }
    fn last_frame_result(&mut self, e: &mut Self::Evm, r: &mut FR) -> Result<(), Self::Error> {
        self.op.last_frame_result(e, r)
    }
    fn execution_result(
        &mut self,
        e: &mut Self::Evm,
        r: FR,
    ) -> Result<ExecutionResult<OpHaltReason>, Self::Error> {
        self.op.execution_result(e, r)
    }
    fn catch_error(
        &self,
        e: &mut Self::Evm,
        err: Self::Error,
    ) -> Result<ExecutionResult<OpHaltReason>, Self::Error> {
        self.op.catch_error(e, err)
    }

    fn validate(&self, e: &mut Self::Evm) -> Result<InitialAndFloorGas, Self::Error> {
        self.validate_env(e)?;
        let mut g = self.validate_initial_tx_gas(e)?;
        let mm = e.ctx().m.clone();
        let mut m = mm.borrow_mut();
        m.facts.initial = g.initial_gas;
        if !m.mini() {
            return Ok(g);
        }
        m.burn(g.initial_gas);
        let ctx = e.ctx();
        let input = &ctx.inner.tx.base.data;
        let zeros = input.iter().filter(|b| **b == 0).count() as u64;
        let tokens = zeros + (input.len() as u64 - zeros) * 4;
        g.initial_gas += 40 * tokens + if m.rex() { 39_000 } else { 0 };
        g.floor_gas += 100 * tokens;
        let gas_limit = ctx.inner.tx.base.gas_limit;
        if g.initial_gas > gas_limit {
            return Err(InvalidTransaction::CallGasCostMoreThanGasLimit {
                gas_limit,
                initial_gas: g.initial_gas,
            }
            .into());
        }
        g.initial_gas += match ctx.inner.tx.base.kind {
            TxKind::Create => {
                let caller = ctx.inner.tx.base.caller;
                let nonce = ctx.db_mut().basic(caller)?.map(|a| a.nonce).unwrap_or(0);
                let a = caller.create(nonce);
                if m.rex() {
                    m.create_gas(a)
                } else {
                    m.account_gas(a)
                }
            }
            TxKind::Call(a) => {
                if !ctx.inner.tx.base.value.is_zero() && is_empty(ctx, a) {
                    m.account_gas(a)
                } else {
                    0
                }
            }
        };
        m.facts.initial = g.initial_gas;
        Ok(g)
    }
}

impl<DB: Database> InspectorHandler for RefHandler<DB> {
    type IT = EthInterpreter;
    fn inspect_execution(
        &mut self,
        e: &mut Self::Evm,
        g: &InitialAndFloorGas,
    ) -> Result<FR, Self::Error> {
        let limit = e.ctx().tx().gas_limit();
        if limit < g.initial_gas {
            let r = InterpreterResult::new(
                InstructionResult::OutOfGas,
                Bytes::new(),
                Gas::new_spent(limit),
            );
            return Ok(if e.ctx().tx().kind().is_call() {
                FrameResult::Call(CallOutcome::new(r, 0..0))
            } else {
                let caller = e.ctx().tx().caller();
                use_nonce(e.ctx(), caller);
                FrameResult::Create(CreateOutcome::new(r, None))
            });
        }
        let first = self.first_frame_input(e, limit - g.initial_gas)?;
        let mut r = self.inspect_run_exec_loop(e, first)?;
        self.last_frame_result(e, &mut r)?;
        Ok(r)
    }
}

/// A transaction that creates uses its sender's nonce even if it ends before it creates anything.
fn use_nonce<DB: Database>(ctx: &mut RefCtx<DB>, caller: Address) {
    let j = ctx.journal_mut();
    if let Some(a) = j.state.get_mut(&caller) {
        a.info.nonce = a.info.nonce.saturating_add(1);
        j.nonce_bump_journal_entry(caller);
    }
}

#[derive(Debug)]
pub struct RefOut {
    pub result: Result<ExecutionResult<OpHaltReason>, String>,
    pub state: EvmState,
    pub over: Option<Over>,
}

pub fn op_cfg(cfg: &CfgEnv<MegaSpecId>) -> CfgEnv<OpSpecId> {
    let mut c = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
    c.chain_id = cfg.chain_id;
    c.tx_chain_id_check = cfg.tx_chain_id_check;
    c.limit_contract_code_size = cfg.limit_contract_code_size;
    c.limit_contract_initcode_size = cfg.limit_contract_initcode_size;
    c.disable_nonce_check = cfg.disable_nonce_check;
    c.disable_balance_check = cfg.disable_balance_check;
    c.disable_block_gas_limit = cfg.disable_block_gas_limit;
    c.disable_base_fee = cfg.disable_base_fee;
    c.disable_eip3607 = cfg.disable_eip3607;
    c.tx_gas_limit_cap = cfg.tx_gas_limit_cap;
    c.memory_limit = cfg.memory_limit;
    c.disable_eip3541 = cfg.disable_eip3541;
    c.max_blobs_per_tx = cfg.max_blobs_per_tx;
    c.blob_base_fee_update_fraction = cfg.blob_base_fee_update_fraction;
    if at_least(cfg.spec, MegaSpecId::MINI_REX) {
        c.limit_contract_code_size.get_or_insert(524_288);
        c.limit_contract_initcode_size.get_or_insert(548_864);
    }
    c
}

/// Runs one transaction on a fresh reference EVM.
pub fn run_ref<DB: Database + Clone>(
    m: &Rc<RefCell<Model>>,
    db: DB,
    block: &BlockEnv,
    cfg: &CfgEnv<MegaSpecId>,
    mut tx: MegaTransaction,
) -> RefOut {
    let spec = m.borrow().spec;
    let mini = at_least(spec, MegaSpecId::MINI_REX);
    if mini && tx.base.caller == SYSTEM {
        // only legacy calls to a whitelisted contract may come from the system address
        let ok = tx.base.tx_type == 0
            && tx.deposit.source_hash.is_zero()
            && matches!(tx.base.kind, TxKind::Call(a) if a == ORACLE);
        if !ok {
            return RefOut {
                result: Err("Custom(\"Mega system transaction callee is not in the whitelist\")".into()),
                state: Default::default(),
                over: None,
            };
        }
        // executed like a deposit: no fee, no nonce or balance check
        tx.deposit.source_hash = keccak256("MEGA_SYSTEM_TRANSACTION");
        tx.base.gas_price = 0;
    }
    m.borrow_mut().start_tx(&tx, block.beneficiary);
    let inner: OpContext<DB> = OpContext::<revm::database::EmptyDB>::op()
        .with_db(db)
        .with_block(block.clone())
        .with_cfg(op_cfg(cfg))
        .with_tx(tx)
        .with_chain(L1BlockInfo::default());
    let ctx = RefCtx { inner, m: m.clone() };
    let mut evm: RefEvm<DB> = OpEvm(RevmEvm {
        ctx,
        inspector: Insp { m: m.clone(), gas: 0, skip: false, fresh: true, pending: Default::default() },
        instruction: EthInstructions::new_mainnet(),
        precompiles: RefPre { op: OpPrecompiles::default(), set: precompile_set(mini, m.borrow().custom), m: m.clone() },
        frame_stack: FrameStack::new(),
    });
    let mut h = RefHandler { op: OpHandler::new() };
    let result = h.inspect_run(&mut evm);
    let state = evm.0.ctx.journal_mut().finalize();
    let over = m.borrow().over;
    RefOut { result: result.map_err(|e| format!("{e:?}")), state, over }
}
