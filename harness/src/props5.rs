//! Block execution: what a block does, and what it admits.
use crate::{diff::*, gen::*, mega::*, model::*, props2::*, props3::Envs, rng::Rng, runner::*, scen::*, world::*};
use alloy_consensus::{Signed, TxEip1559, TxEip2930, TxEip7702, TxLegacy};
use alloy_eips::{eip2718::Typed2718, Encodable2718};
use alloy_evm::{
    block::{BlockExecutor, CommitChanges, OnStateHook, StateChangeSource},
    EvmEnv, IntoTxEnv, RecoveredTx,
};
use alloy_hardforks::ForkCondition;
use alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use alloy_primitives::{keccak256, Address, Bytes, Sealed, Signature, B256, U256};
use mega_evm::{
    BlockLimiter, BlockLimits, BlockMegaTransactionOutcome, EnrichedMegaTx, EvmTxRuntimeLimits,
    MegaBlockExecutionCtx, MegaBlockExecutor, MegaTransactionExt,
    MegaBlockExecutorFactory, MegaEvmFactory, MegaHardfork, MegaHardforkConfig, MegaTransaction,
    MegaTxEnvelope,
};
use op_alloy_consensus::{OpReceiptEnvelope, TxDeposit};
use revm::{
    database::{states::bundle_state::BundleRetention, State},
    state::EvmState,
    Database,
};
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    sync::{Arc, Mutex},
};

// ---- transactions as a block carries them --------------------------------------------------------

pub fn envelope(tx: &MegaTransaction) -> MegaTxEnvelope {
    let b = &tx.base;
    let sig = Signature::new(U256::from(7), U256::from(8), b.nonce % 2 == 1);
    let (nonce, gas_limit, value, input) = (b.nonce, b.gas_limit, b.value, b.data.clone());
    let chain_id = CHAIN_ID;
    let (max_fee_per_gas, tip) = (b.gas_price, b.gas_priority_fee.unwrap_or(0));
    let access_list = b.access_list.clone();
    fn seal<T: alloy_consensus::SignableTransaction<Signature>>(t: T, s: Signature) -> Signed<T> {
        t.into_signed(s)
    }
    match b.tx_type {
        0 => MegaTxEnvelope::Legacy(seal(
            TxLegacy { chain_id: Some(chain_id), nonce, gas_price: b.gas_price, gas_limit, to: b.kind, value, input },
            sig,
        )),
        1 => MegaTxEnvelope::Eip2930(seal(
            TxEip2930 { chain_id, nonce, gas_price: b.gas_price, gas_limit, to: b.kind, value, input, access_list },
            sig,
        )),
        2 => MegaTxEnvelope::Eip1559(seal(
            TxEip1559 {
                chain_id,
                nonce,
                gas_limit,
                max_fee_per_gas,
                max_priority_fee_per_gas: tip,
                to: b.kind,
                value,
                input,
                access_list,
            },
            sig,
        )),
        4 => MegaTxEnvelope::Eip7702(seal(
            TxEip7702 {
                chain_id,
                nonce,
                gas_limit,
                max_fee_per_gas,
                max_priority_fee_per_gas: tip,
                to: b.kind.into_to().unwrap_or_default(),
                value,
                input,
                access_list,
                authorization_list: vec![],
            },
            sig,
        )),
        _ => MegaTxEnvelope::Deposit(Sealed::new(TxDeposit {
            source_hash: tx.deposit.source_hash,
            from: b.caller,
            to: b.kind,
            mint: tx.deposit.mint.unwrap_or_default(),
            value,
            gas_limit,
            is_system_transaction: false,
            input,
        })),
    }
}

/// A transaction handed to the block executor: its envelope decides size, hash and kind, its
/// environment what is executed.
#[derive(Clone, Copy, Debug)]
pub struct BTx<'a> {
    env: &'a MegaTransaction,
    wire: &'a MegaTxEnvelope,
}
impl RecoveredTx<MegaTxEnvelope> for BTx<'_> {
    fn tx(&self) -> &MegaTxEnvelope {
        self.wire
    }
    fn signer(&self) -> &Address {
        &self.env.base.caller
    }
}
impl IntoTxEnv<MegaTransaction> for BTx<'_> {
    fn into_tx_env(self) -> MegaTransaction {
        self.env.clone()
    }
}

// ---- schedules and system contracts ---------------------------------------------------------------

pub const FORKS: [MegaHardfork; 8] = [
    MegaHardfork::MiniRex,
    MegaHardfork::MiniRex1,
    MegaHardfork::MiniRex2,
    MegaHardfork::Rex,
    MegaHardfork::Rex1,
    MegaHardfork::Rex2,
    MegaHardfork::Rex3,
    MegaHardfork::Rex4,
];

/// How many of the hardforks, in order, make a given spec; there may be two answers.
pub fn forks_for(spec: u8, alt: bool) -> usize {
    match (spec % 7, alt) {
        (0, false) => 0,
        (0, true) => 2,
        (1, false) => 1,
        (1, true) => 3,
        (s, _) => s as usize + 2,
    }
}

pub fn schedule(n: usize, ts: u64) -> MegaHardforkConfig {
    let mut c = MegaHardforkConfig::default();
    for (i, f) in FORKS.into_iter().enumerate() {
        if i < n {
            c.insert(f, ForkCondition::Timestamp(ts.saturating_sub((n - 1 - i) as u64 * 3)));
        } else if i % 2 == 0 {
            c.insert(f, ForkCondition::Timestamp(ts + 1 + i as u64));
        }
    }
    c
}

pub const HISTORY: Address = alloy_eips::eip2935::HISTORY_STORAGE_ADDRESS;
pub const BEACON: Address = alloy_eips::eip4788::BEACON_ROOTS_ADDRESS;

/// The state before the first transaction of a block, as documented.
pub fn pre_block(db: &mut MemDb, mini_rex: bool, rex2: bool, number: u64, ts: u64, parent: B256, root: B256) {
    let mut put = |a: Address, k: u64, v: U256| {
        if let Some(acc) = db.accounts.get_mut(&a).filter(|x| !x.code.is_empty()) {
            if v.is_zero() {
                acc.storage.remove(&U256::from(k));
            } else {
                acc.storage.insert(U256::from(k), v);
            }
        }
    };
    if number > 0 {
        put(HISTORY, (number - 1) % 8191, parent.into());
        put(BEACON, ts % 8191, U256::from(ts));
        put(BEACON, ts % 8191 + 8191, root.into());
    }
    let mut code = |a: Address, c: Bytes| {
        let mut acc = db.accounts.get(&a).cloned().unwrap_or_default();
        acc.code = c;
        db.set(a, acc);
    };
    if mini_rex {
        use mega_system_contracts::oracle;
        code(ORACLE, if rex2 { oracle::V1_1_0_CODE } else { oracle::V1_0_0_CODE });
        code(TSORACLE, mega_evm::HIGH_PRECISION_TIMESTAMP_ORACLE_CODE);
    }
    if rex2 {
        code(KEYLESS, mega_system_contracts::keyless_deploy::V1_0_0_CODE);
    }
}

// ---- the case -------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Execute and commit.
    Exec(u8),
    /// Execute, the condition says no.
    Skip(u8),
    /// Execute, keep the outcome.
    Run(u8),
    /// Commit a kept outcome.
    Commit(u8),
}

/// Limits of the block; `u64::MAX` where there is none.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BLim {
    pub tx_gas: u64,
    pub gas: u64,
    pub tx_size: u64,
    pub size: u64,
    pub tx_da: u64,
    pub da: u64,
    pub data: u64,
    pub kv: u64,
    pub compute: u64,
    pub growth: u64,
}
pub const NO_BLIM: BLim = BLim {
    tx_gas: u64::MAX,
    gas: 1 << 44,
    tx_size: u64::MAX,
    size: u64::MAX,
    tx_da: u64::MAX,
    da: u64::MAX,
    data: u64::MAX,
    kv: u64::MAX,
    compute: u64::MAX,
    growth: u64::MAX,
};
impl BLim {
    fn get(&mut self, i: usize) -> &mut u64 {
        match i {
            0 => &mut self.tx_gas,
            1 => &mut self.gas,
            2 => &mut self.tx_size,
            3 => &mut self.size,
            4 => &mut self.tx_da,
            5 => &mut self.da,
            6 => &mut self.data,
            7 => &mut self.kv,
            8 => &mut self.compute,
            _ => &mut self.growth,
        }
    }
    pub fn limits(&self, tx: EvmTxRuntimeLimits) -> BlockLimits {
        BlockLimits {
            tx_gas_limit: self.tx_gas,
            block_gas_limit: self.gas,
            tx_encode_size_limit: self.tx_size,
            block_txs_encode_size_limit: self.size,
            tx_da_size_limit: self.tx_da,
            block_da_size_limit: self.da,
            block_txs_data_limit: self.data,
            block_kv_update_limit: self.kv,
            block_compute_gas_limit: self.compute,
            block_state_growth_limit: self.growth,
            tx_data_limit: tx.tx_data_size_limit,
            tx_kv_update_limit: tx.tx_kv_updates_limit,
            tx_compute_gas_limit: tx.tx_compute_gas_limit,
            tx_state_growth_limit: tx.tx_state_growth_limit,
            block_env_access_compute_gas_limit: tx.block_env_access_compute_gas_limit,
            oracle_access_compute_gas_limit: tx.oracle_access_compute_gas_limit,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlkCase {
    pub sc: Scenario,
    pub alt: bool,
    /// Which of the history contracts exist.
    pub hist: u8,
    pub parent: u8,
    pub root: u8,
    pub lim: BLim,
    pub ops: Vec<Op>,
    pub via: u8,
}

impl BlkCase {
    /// The history contracts there are: a system call has 30M gas, which has to pay for two new
    /// slots at the price of their bucket, and its share of the transaction limits.
    pub fn hist(&self) -> u8 {
        let dear = self.sc.mults.iter().any(|m| *m > if self.sc.spec % 7 == 1 { 1024 } else { 1 << 15 });
        let tight = !matches!(self.sc.lim, LimP::Default | LimP::NoLimits);
        if dear || tight {
            0
        } else {
            self.hist
        }
    }
    pub fn forks(&self) -> usize {
        forks_for(self.sc.spec, self.alt)
    }
    pub fn db(&self) -> MemDb {
        let mut db = self.sc.db();
        for (bit, a, c) in [
            (1, HISTORY, alloy_eips::eip2935::HISTORY_STORAGE_CODE.clone()),
            (2, BEACON, Bytes::from_static(&BEACON_CODE)),
        ] {
            if self.hist() & bit != 0 {
                db.set(a, Acc { nonce: 1, code: c, ..Default::default() });
            }
        }
        // what becomes of the storage of a system contract that is redeployed is C21's
        let mut after = db.detach();
        pre_block(&mut after, self.forks() >= 1, self.forks() >= 6, 0, 0, B256::ZERO, B256::ZERO);
        for a in [ORACLE, TSORACLE, KEYLESS] {
            if let Some(acc) = db.accounts.get_mut(&a) {
                if after.accounts[&a].code != acc.code {
                    acc.storage.clear();
                }
            }
        }
        db
    }
    /// The model as the first transaction finds it. Before Rex1 a machine keeps the compute limit
    /// that a transaction was detained to, and both history contracts read the block environment.
    pub fn model(&self, sc: &Scenario, limits: EvmTxRuntimeLimits) -> Rc<RefCell<Model>> {
        let m = model_of(sc, limits);
        if self.hist() != 0 && (1..3).contains(&rank(sc.spec())) {
            let mut m = m.borrow_mut();
            m.compute_limit = m.compute_limit.min(limits.block_env_access_compute_gas_limit);
        }
        m
    }
    /// The state the first transaction finds.
    pub fn opened(&self) -> MemDb {
        let mut db = self.db();
        pre_block(
            &mut db,
            self.forks() >= 1,
            self.forks() >= 6,
            self.sc.number.max(1),
            self.sc.timestamp,
            B256::repeat_byte(self.parent),
            B256::repeat_byte(self.root),
        );
        db
    }
}

/// EIP-4788's contract.
pub const BEACON_CODE: [u8; 97] = alloy_primitives::hex!("3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c575f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500");

// ---- admission ------------------------------------------------------------------------------------

/// Sums of what has been committed.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Sums {
    pub gas: u128,
    pub size: u128,
    pub da: u128,
    pub data: u128,
    pub kv: u128,
    pub compute: u128,
    pub growth: u128,
}

pub fn sums_of(l: &BlockLimiter) -> Sums {
    Sums {
        gas: l.block_gas_used.into(),
        size: l.block_tx_size_used.into(),
        da: l.block_da_size_used.into(),
        data: l.block_data_used.into(),
        kv: l.block_kv_updates_used.into(),
        compute: l.block_compute_gas_used.into(),
        growth: l.block_state_growth_used.into(),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct TxSize {
    pub gas: u64,
    pub size: u64,
    pub da: u64,
    pub deposit: bool,
}

/// What a transaction tells a caller about itself.
fn facets<T: alloy_consensus::Transaction + Typed2718 + MegaTransactionExt>(t: &T) -> String {
    format!(
        "{:?} {} {} {:?} {} {:?} {:?} {} {} {} {:?} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {}",
        t.chain_id(), t.nonce(), t.gas_limit(), t.gas_price(), t.max_fee_per_gas(), t.max_priority_fee_per_gas(),
        t.max_fee_per_blob_gas(), t.priority_fee_or_price(), t.effective_gas_price(Some(3)), t.is_dynamic_fee(),
        t.kind(), t.is_create(), t.value(), t.input(), t.access_list(), t.authorization_list(), t.authorization_count(),
        t.effective_tip_per_gas(2), t.to(), t.ty(), t.tx_hash(),
    )
}

/// Every reason a transaction may not enter the block, as the text its error must show.
pub fn refusals(l: &BlockLimits, s: &Sums, t: TxSize) -> Vec<String> {
    let mut out = vec![];
    let mut when = |c: bool, f: &dyn Fn() -> String| {
        if c {
            out.push(f())
        }
    };
    let (gas, size, da) = (t.gas as u128, t.size as u128, t.da as u128);
    when(t.gas > l.tx_gas_limit, &|| {
        format!("TransactionGasLimit {{ tx_gas_limit: {gas}, limit: {} }}", l.tx_gas_limit)
    });
    when(s.gas + gas > l.block_gas_limit.into(), &|| {
        format!(
            "TransactionGasLimitMoreThanAvailableBlockGas {{ transaction_gas_limit: {gas}, block_available_gas: {} }}",
            (l.block_gas_limit as u128).saturating_sub(s.gas)
        )
    });
    when(t.size > l.tx_encode_size_limit, &|| {
        format!("TransactionEncodeSizeLimit {{ tx_size: {size}, limit: {} }}", l.tx_encode_size_limit)
    });
    when(s.size + size > l.block_txs_encode_size_limit.into(), &|| {
        format!(
            "TransactionEncodeSizeLimit {{ block_used: {}, tx_used: {size}, limit: {} }}",
            s.size, l.block_txs_encode_size_limit
        )
    });
    when(!t.deposit && t.da > l.tx_da_size_limit, &|| {
        format!("DataAvailabilitySizeLimit {{ da_size: {da}, limit: {} }}", l.tx_da_size_limit)
    });
    when(!t.deposit && s.da + da > l.block_da_size_limit.into(), &|| {
        format!(
            "DataAvailabilitySizeLimit {{ block_used: {}, tx_used: {da}, limit: {} }}",
            s.da, l.block_da_size_limit
        )
    });
    for (used, limit, name) in [
        (s.data, l.block_txs_data_limit, "TransactionDataLimit"),
        (s.kv, l.block_kv_update_limit, "KVUpdateLimit"),
        (s.compute, l.block_compute_gas_limit, "ComputeGasLimit"),
        (s.growth, l.block_state_growth_limit, "StateGrowthLimit"),
    ] {
        when(used >= limit.into(), &|| format!("{name} {{ block_used: {used}, limit: {limit} }}"));
    }
    out
}

// ---- the run --------------------------------------------------------------------------------------

struct Hook(Arc<Mutex<Vec<(String, EvmState)>>>);
impl OnStateHook for Hook {
    fn on_state(&mut self, s: StateChangeSource, st: &EvmState) {
        self.0.lock().unwrap().push((format!("{s:?}"), st.clone()));
    }
}

/// What one receipt must say.
#[derive(Clone, Debug, PartialEq)]
struct Rcpt {
    ty: u8,
    ok: bool,
    cumulative: u64,
    logs: Vec<revm::primitives::Log>,
    deposit: Option<(u64, u64)>,
}

fn rcpt(r: &OpReceiptEnvelope) -> Rcpt {
    Rcpt {
        ty: r.tx_type() as u8,
        ok: r.status(),
        cumulative: r.cumulative_gas_used(),
        logs: r.logs().to_vec(),
        deposit: match r {
            OpReceiptEnvelope::Deposit(d) => Some((
                d.receipt.deposit_nonce.unwrap_or(u64::MAX),
                d.receipt.deposit_receipt_version.unwrap_or(u64::MAX),
            )),
            _ => None,
        },
    }
}

pub struct BlkStats {
    pub committed: u64,
    pub refused: u64,
    pub invalid: u64,
    pub dropped: u64,
    /// Run and kept.
    pub run: u64,
    pub stale_refused: u64,
    pub why: BTreeSet<String>,
    pub heavy: bool,
    pub results: BTreeSet<String>,
}

/// A kept outcome: what the executor returned and what was expected.
struct Kept<'a> {
    got: BlockMegaTransactionOutcome<BTx<'a>>,
    exp: Expect,
    t: TxSize,
    nonce: u64,
    /// How many transactions had been committed when it ran.
    at: usize,
}

pub fn run_block(c: &BlkCase) -> Result<BlkStats, Mismatch> {
    let sc = Scenario { block_gas: Some(c.lim.gas), ..c.sc.clone() };
    let sc = &sc;
    let limits = resolve_limits(sc);
    let bl = c.lim.limits(limits);
    let hf = schedule(c.forks(), sc.timestamp);
    let orc = Orc { values: Rc::new(sc.oracle_values()), ..Default::default() };
    let base = c.db();
    let db = c.opened();
    let m = c.model(sc, limits);
    let factory = MegaBlockExecutorFactory::new(
        hf,
        MegaEvmFactory::new().with_external_env_factory(Envs(salt_of(sc), orc.clone(), Default::default())),
        OpAlloyReceiptBuilder::default(),
    );
    let mut state = State::builder().with_database(base.detach()).with_bundle_update().build();
    let ctx = MegaBlockExecutionCtx::new(
        B256::repeat_byte(c.parent),
        Some(B256::repeat_byte(c.root)),
        Bytes::new(),
        bl,
    );
    let env = EvmEnv { cfg_env: cfg_of(sc.spec()), block_env: sc.block() };
    let seen = Arc::new(Mutex::new(vec![]));
    let hook = Box::new(Hook(seen.clone()));
    let mut done = vec![];
    let (st, want) = if c.via & 4 != 0 {
        let ex = factory.create_executor_with_inspector(&mut state, ctx.clone(), env.clone(), Shown::default());
        drive(c, sc, &m, db, ex, hook, |i: &Shown| Some(i.0), &mut done)?
    } else {
        let ex = factory.create_executor(&mut state, ctx.clone(), env.clone());
        drive(c, sc, &m, db, ex, hook, |_| None, &mut done)?
    };
    let Some((want, receipts)) = want else { return Ok(st) };
    // the state hook saw every change
    let mut hooked = base.detach();
    for (_, s) in seen.lock().unwrap().iter() {
        hooked.apply(s);
    }
    hooked.accounts.retain(|_, a| !(a.balance.is_zero() && a.nonce == 0 && a.code.is_empty()));
    if let Some(d) = state_diff(&want, &hooked) {
        return Err(mism("hook", format!("expected vs what the state hook saw: {d}")));
    }
    check_state(&want, &base, &mut state)?;
    // the committed transactions alone, through the generic interface, make the same block
    let alone = st.dropped + st.invalid + st.stale_refused + st.run == 0 || rank(sc.spec()) >= 3;
    if c.via & 8 != 0 && alone {
        use alloy_evm::{block::BlockExecutorFactory, EvmFactory};
        let mut state = State::builder().with_database(base.detach()).with_bundle_update().build();
        let evm = BlockExecutorFactory::evm_factory(&factory)
            .create_evm(&mut state, env)
            .with_tx_runtime_limits(ctx.block_limits.to_evm_tx_runtime_limits());
        let mut ex = BlockExecutorFactory::create_executor(&factory, evm, ctx);
        ex.apply_pre_execution_changes().map_err(|e| mism("generic", format!("failed: {e:?}")))?;
        for (env, wire) in &done {
            ex.execute_transaction(BTx { env, wire }).map_err(|e| mism("generic", format!("failed: {e:?}")))?;
        }
        let (evm, res) = ex.finish().map_err(|e| mism("generic", format!("{e:?}")))?;
        drop(evm);
        let got: Vec<Rcpt> = res.receipts.iter().map(rcpt).collect();
        if got != receipts {
            return Err(mism("generic", format!("expected {receipts:?}, got {got:?}")));
        }
        check_state(&want, &base, &mut state)?;
    }
    Ok(st)
}

/// Counts the frames it is shown.
#[derive(Default)]
struct Shown(u64);
impl<C: revm::context_interface::ContextTr> revm::Inspector<C> for Shown {
    fn call(&mut self, _: &mut C, _: &mut revm::interpreter::CallInputs) -> Option<revm::interpreter::CallOutcome> {
        self.0 += 1;
        None
    }
    fn create(&mut self, _: &mut C, _: &mut revm::interpreter::CreateInputs) -> Option<revm::interpreter::CreateOutcome> {
        self.0 += 1;
        None
    }
}

type Exec<'s, I> = MegaBlockExecutor<MegaHardforkConfig, mega_evm::MegaEvm<&'s mut State<MemDb>, I, Ext>, OpAlloyReceiptBuilder>;

/// Runs the operations; the state and receipts that must result, unless it was too long.
fn drive<'s, I>(
    c: &BlkCase,
    sc: &Scenario,
    m: &Rc<RefCell<Model>>,
    mut db: MemDb,
    mut ex: Exec<'s, I>,
    hook: Box<Hook>,
    shown: impl Fn(&I) -> Option<u64>,
    done: &mut Vec<(MegaTransaction, MegaTxEnvelope)>,
) -> Result<(BlkStats, Option<(MemDb, Vec<Rcpt>)>), Mismatch>
where
    I: revm::Inspector<mega_evm::MegaContext<&'s mut State<MemDb>, Ext>>,
{
    let bl = c.lim.limits(resolve_limits(sc));
    let equiv = rank(sc.spec()) == 0;
    ex.set_state_hook(Some(hook));
    let mut st = BlkStats {
        committed: 0,
        refused: 0,
        invalid: 0,
        dropped: 0,
        run: 0,
        stale_refused: 0,
        why: Default::default(),
        heavy: false,
        results: Default::default(),
    };
    ex.apply_pre_execution_changes().map_err(|e| mism("pre-block", format!("failed: {e:?}")))?;
    let mut sums = Sums::default();
    let mut succeeded = 0u64;
    let opening = shown(ex.inspector());
    let mut receipts: Vec<Rcpt> = vec![];
    let arena: RefCell<Vec<Box<(MegaTransaction, MegaTxEnvelope)>>> = RefCell::new(vec![]);
    let mut kept: Vec<Kept<'_>> = vec![];
    for (n, op) in c.ops.iter().enumerate() {
        let at = format!("op {n} {op:?}");
        match op {
            Op::Exec(i) | Op::Skip(i) | Op::Run(i) => {
                if sc.txs.is_empty() {
                    continue;
                }
                let t = &sc.txs[*i as usize % sc.txs.len()];
                let gas = resolve_gas(sc, m, &db, t);
                let env = build_tx(t, &db, sc.basefee as u64, gas);
                let wire = envelope(&env);
                // boxed transactions stay where they are for the whole run
                let tx: BTx<'_> = {
                    let mut a = arena.borrow_mut();
                    a.push(Box::new((env, wire)));
                    let p: *const (MegaTransaction, MegaTxEnvelope) = &**a.last().unwrap();
                    // SAFETY: boxes are never dropped or moved out before `arena` itself
                    let r = unsafe { &*p };
                    BTx { env: &r.0, wire: &r.1 }
                };
                let mut enc = vec![];
                tx.wire.encode_2718(&mut enc);
                let ts = TxSize {
                    gas,
                    size: enc.len() as u64,
                    da: op_alloy_flz::tx_estimated_size_fjord_bytes(&enc),
                    deposit: tx.wire.ty() == 0x7e,
                };
                let rich = EnrichedMegaTx::new_slow(tx.wire.clone());
                let (a, b) = (facets(&rich), facets(tx.wire));
                if (rich.tx_hash, rich.da_size, rich.tx_size) != (keccak256(&enc), ts.da, ts.size) || a != b {
                    return Err(mism("enriched", format!("{at}: {:?} {a} for {ts:?} {b}", (rich.tx_hash, rich.da_size, rich.tx_size))));
                }
                let rich = EnrichedMegaTx::new(tx, rich.tx_hash, rich.da_size, rich.tx_size);
                let why = refusals(&bl, &sums, ts);
                let nonce = db.accounts.get(&tx.env.base.caller).map(|a| a.nonce).unwrap_or(0);
                if !why.is_empty() {
                    let e = match op {
                        Op::Exec(_) => ex.execute_transaction(tx).err(),
                        Op::Skip(_) => ex.execute_transaction_with_commit_condition(tx, |_| CommitChanges::No).err(),
                        _ => ex.run_transaction(tx).err(),
                    };
                    let Some(e) = e else {
                        return Err(mism("admitted", format!("{at}: must be refused ({why:?}) but was executed")));
                    };
                    check_refusal(&at, &format!("{e:?}"), &why)?;
                    st.refused += 1;
                    st.why.extend(why.iter().map(|w| w.split('{').next().unwrap().trim().to_string()));
                } else {
                    let e = expect(m, sc, &db, tx.env.clone());
                    if e.facts.steps > STEP_CAP {
                        st.heavy = true;
                        return Ok((st, None));
                    }
                    let run = match op {
                        Op::Exec(_) if c.via % 2 == 0 => {
                            let r = if c.via & 2 != 0 { ex.execute_transaction(rich) } else { ex.execute_transaction(tx) };
                            match r {
                                Ok(g) => {
                                    if let Ok(r) = &e.obs.res {
                                        if g != r.gas_used {
                                            return Err(mism("gas_used", format!("{at}: expected {}, got {g}", r.gas_used)));
                                        }
                                    }
                                    Ok(None)
                                }
                                Err(x) => Err(x),
                            }
                        }
                        Op::Skip(_) => {
                            match ex.execute_transaction_with_commit_condition(tx, |_| CommitChanges::No) {
                                Ok(None) => Ok(None),
                                Ok(Some(g)) => return Err(mism("condition", format!("{at}: committed {g}"))),
                                Err(x) => Err(x),
                            }
                        }
                        _ if c.via & 16 != 0 => ex.execute_mega_transaction(tx).map(Some),
                        _ => ex.run_transaction(tx).map(Some),
                    };
                    match (run, &e.obs.res) {
                        (Err(x), Ok(r)) => {
                            return Err(mism("accept", format!("{at}: expected {}, got error {x:?}", r.kind)));
                        }
                        (Ok(_), Err(x)) => {
                            return Err(mism("accept", format!("{at}: expected error {x}, but it ran")));
                        }
                        (Err(_), Err(_)) => st.invalid += 1,
                        (Ok(out), Ok(r)) => {
                            st.results.insert(r.kind.split(['{', '(']).next().unwrap_or("").into());
                            if let Some(o) = &out {
                                let g = Obs {
                                    odd: None,
                                    res: Ok(observe(&o.result)),
                                    usage: Usage {
                                        data: o.data_size,
                                        kv: o.kv_updates,
                                        compute: o.compute_gas_used,
                                        growth: o.state_growth_used,
                                    },
                                    ..e.obs.clone()
                                };
                                let mut x = e.obs.clone();
                                if equiv {
                                    x.usage = g.usage.clone();
                                }
                                if let Some(mut mm) = cmp_ref(&x, &g, equiv) {
                                    mm.detail = format!("{at}: {}", mm.detail);
                                    return Err(mm);
                                }
                                let (mut p, mut q) = (db.clone(), db.clone());
                                p.apply(&e.obs.state);
                                q.apply(&o.state);
                                if let Some(d) = state_diff(&p, &q) {
                                    return Err(mism("state", format!("{at}: expected vs got: {d}")));
                                }
                            }
                            let want_gas = r.gas_used;
                            if r.kind.starts_with("success") {
                                succeeded += 1;
                            }
                            match (op, out) {
                                (Op::Skip(_), _) => st.dropped += 1,
                                (Op::Exec(_), out) => {
                                    if let Some(o) = out {
                                        let r = if c.via & 16 != 0 {
                                            ex.commit_execution_outcome(o)
                                        } else {
                                            ex.commit_transaction_outcome(o)
                                        };
                                        match r {
                                            Ok(g) if g == want_gas => {}
                                            Ok(g) => return Err(mism("gas_used", format!("{at}: expected {want_gas}, got {g}"))),
                                            Err(x) => return Err(mism("accept", format!("{at}: commit failed: {x:?}"))),
                                        }
                                    }
                                    commit(&mut db, &mut sums, &mut receipts, &e, ts, nonce, tx.env.tx_type_byte());
                                    st.committed += 1;
                                    done.push((tx.env.clone(), tx.wire.clone()));
                                }
                                (_, Some(got)) => {
                                    st.run += 1;
                                    kept.push(Kept { got, exp: e, t: ts, nonce, at: receipts.len() })
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            Op::Commit(i) => {
                if kept.is_empty() {
                    continue;
                }
                let k = kept.remove(*i as usize % kept.len());
                let why = refusals(&bl, &sums, k.t);
                if why.is_empty() && k.at != receipts.len() {
                    // made for a state that has passed: what committing it means is not specified
                    continue;
                }
                let ty = k.got.tx.env.tx_type_byte();
                let pair = (k.got.tx.env.clone(), k.got.tx.wire.clone());
                match (ex.commit_transaction_outcome(k.got), why.is_empty()) {
                    (Ok(_), false) => {
                        return Err(mism("admitted", format!("{at}: must be refused at commit ({why:?}) but was committed")));
                    }
                    (Err(e), false) => {
                        check_refusal(&at, &format!("{e:?}"), &why)?;
                        st.stale_refused += 1;
                    }
                    (Err(e), true) => return Err(mism("accept", format!("{at}: commit failed: {e:?}"))),
                    (Ok(_), true) => {
                        commit(&mut db, &mut sums, &mut receipts, &k.exp, k.t, k.nonce, ty);
                        st.committed += 1;
                        done.push(pair);
                    }
                }
            }
        }
        // what has been committed so far
        let got = sums_of(&ex.block_limiter);
        if equiv {
            (sums.data, sums.kv, sums.compute, sums.growth) = (got.data, got.kv, got.compute, got.growth);
        }
        if got != sums {
            return Err(mism("sums", format!("{at}: expected {sums:?}, got {got:?}")));
        }
        if ex.receipts.len() != receipts.len() {
            return Err(mism("receipts", format!("{at}: expected {} receipts, got {}", receipts.len(), ex.receipts.len())));
        }
    }
    drop(kept);
    let mut buckets = ex.get_accessed_bucket_ids();
    buckets.sort();
    let want: Vec<u32> = m.borrow().buckets.keys().copied().collect();
    if !want.iter().all(|b| buckets.contains(b)) || (c.hist() == 0 && buckets != want) {
        return Err(mism("buckets", format!("expected {want:?}, got {buckets:?}")));
    }
    let want: BTreeMap<u64, B256> = m.borrow().hashes.iter().map(|n| (*n, keccak256(n.to_be_bytes()))).collect();
    let got = ex.get_accessed_block_hashes();
    if got != want {
        return Err(mism("block hashes", format!("expected {want:?}, got {got:?}")));
    }
    if let (Some(a), Some(b)) = (opening, shown(ex.inspector_mut())) {
        if b < a + succeeded {
            return Err(mism("inspector", format!("{succeeded} transactions succeeded, the inspector was shown {} frames", b - a)));
        }
    }
    let (evm, res) = ex.finish().map_err(|e| mism("finish", format!("{e:?}")))?;
    drop(evm);
    let got: Vec<Rcpt> = res.receipts.iter().map(rcpt).collect();
    if got != receipts {
        let i = got.iter().zip(&receipts).position(|(a, b)| a != b).unwrap_or(0);
        return Err(mism("receipt", format!("receipt {i}: expected {:?}, got {:?}", receipts.get(i), got.get(i))));
    }
    if res.gas_used as u128 != sums.gas {
        return Err(mism("block gas", format!("expected {}, got {}", sums.gas, res.gas_used)));
    }
    if !res.requests.is_empty() {
        return Err(mism("requests", "a block carries no requests"));
    }
    let mut want = db;
    want.accounts.retain(|_, a| !(a.balance.is_zero() && a.nonce == 0 && a.code.is_empty()));
    Ok((st, Some((want, receipts))))
}

fn check_refusal(at: &str, text: &str, why: &[String]) -> Result<(), Mismatch> {
    if why.iter().any(|w| text.contains(w.as_str())) {
        Ok(())
    } else {
        Err(mism("refusal", format!("{at}: expected one of {why:?}, got {text}")))
    }
}

fn commit(db: &mut MemDb, s: &mut Sums, rs: &mut Vec<Rcpt>, e: &Expect, t: TxSize, nonce: u64, ty: u8) {
    let r = e.obs.res.as_ref().expect("accepted");
    s.gas += r.gas_used as u128;
    s.size += t.size as u128;
    if !t.deposit {
        s.da += t.da as u128;
    }
    s.data += e.obs.usage.data as u128;
    s.kv += e.obs.usage.kv as u128;
    s.compute += e.obs.usage.compute as u128;
    s.growth += e.obs.usage.growth as u128;
    rs.push(Rcpt {
        ty,
        ok: r.kind.starts_with("success"),
        cumulative: s.gas as u64,
        logs: r.logs.clone(),
        deposit: t.deposit.then_some((nonce, 1)),
    });
    db.apply(&e.obs.state);
}

/// The database after the block, read through the executor's cache and through its bundle.
pub fn check_state(want: &MemDb, base: &MemDb, state: &mut State<MemDb>) -> Result<(), Mismatch> {
    check_cached(want, base, state)?;
    check_bundle(want, base, state)
}

pub fn check_cached(want: &MemDb, base: &MemDb, state: &mut State<MemDb>) -> Result<(), Mismatch> {
    let mut cached = MemDb::default();
    let keys: BTreeSet<Address> = want.accounts.keys().chain(base.accounts.keys()).copied().collect();
    for a in &keys {
        let Some(i) = state.basic(*a).map_err(|e| mism("state read", format!("{e:?}")))? else { continue };
        let mut acc = Acc { balance: i.balance, nonce: i.nonce, ..Default::default() };
        if i.code_hash != revm::primitives::KECCAK_EMPTY {
            let code = match i.code {
                Some(c) => c,
                None => state.code_by_hash(i.code_hash).map_err(|e| mism("state read", format!("{e:?}")))?,
            };
            acc.code = code.original_bytes();
            if keccak256(&acc.code) != i.code_hash {
                return Err(mism("code hash", format!("{a}: code does not hash to {}", i.code_hash)));
            }
        }
        let slots: BTreeSet<U256> = [want, base]
            .iter()
            .filter_map(|d| d.accounts.get(a))
            .flat_map(|x| x.storage.keys().copied())
            .collect();
        for k in slots {
            let v = state.storage(*a, k).map_err(|e| mism("state read", format!("{e:?}")))?;
            if !v.is_zero() {
                acc.storage.insert(k, v);
            }
        }
        if !(acc.balance.is_zero() && acc.nonce == 0 && acc.code.is_empty()) {
            cached.accounts.insert(*a, acc);
        }
    }
    if let Some(d) = state_diff(want, &cached) {
        return Err(mism("final state", format!("expected vs the executor's state: {d}")));
    }
    Ok(())
}

pub fn check_bundle(want: &MemDb, base: &MemDb, state: &mut State<MemDb>) -> Result<(), Mismatch> {
    state.merge_transitions(BundleRetention::Reverts);
    let bundle = state.take_bundle();
    let mut out = base.detach();
    for (a, b) in &bundle.state {
        let Some(i) = &b.info else {
            out.accounts.remove(a);
            continue;
        };
        let acc = out.accounts.entry(*a).or_default();
        acc.balance = i.balance;
        acc.nonce = i.nonce;
        if i.code_hash == revm::primitives::KECCAK_EMPTY {
            acc.code = Bytes::new();
        } else if let Some(c) = i.code.as_ref().or_else(|| bundle.contracts.get(&i.code_hash)) {
            acc.code = c.original_bytes();
        }
        if b.was_destroyed() {
            acc.storage.clear();
        }
        for (k, v) in &b.storage {
            if v.present_value.is_zero() {
                acc.storage.remove(k);
            } else {
                acc.storage.insert(*k, v.present_value);
            }
        }
    }
    out.accounts.retain(|_, a| !(a.balance.is_zero() && a.nonce == 0 && a.code.is_empty()));
    if let Some(d) = state_diff(want, &out) {
        return Err(mism("bundle", format!("expected vs the block's bundle: {d}")));
    }
    Ok(())
}

trait TypeByte {
    fn tx_type_byte(&self) -> u8;
}
impl TypeByte for MegaTransaction {
    fn tx_type_byte(&self) -> u8 {
        self.base.tx_type
    }
}

// ---- generation -----------------------------------------------------------------------------------

pub fn gen_ops(r: &mut Rng, n: u64, txs: usize) -> Vec<Op> {
    let mut out = vec![];
    for _ in 0..n {
        let i = r.below(txs as u64) as u8;
        out.push(match r.weighted(&[60, 8, 16, 16]) {
            0 => Op::Exec(i),
            1 => Op::Skip(i),
            2 => Op::Run(i),
            _ => Op::Commit(r.u8(3)),
        });
    }
    out
}

/// Puts one or two limits of the block where they bite: at, just below or just above a total that
/// the unlimited block reaches.
pub fn tighten(r: &mut Rng, c: &mut BlkCase) {
    let sc = &c.sc;
    let m = c.model(sc, resolve_limits(sc));
    let mut db = c.opened();
    let mut sums = [0u64; 10];
    // totals as each transaction would be admitted
    let mut marks: Vec<[u64; 10]> = vec![];
    for op in &c.ops {
        let (Op::Exec(i) | Op::Run(i)) = op else { continue };
        let t = &sc.txs[*i as usize % sc.txs.len()];
        let gas = resolve_gas(sc, &m, &db, t);
        let tx = build_tx(t, &db, sc.basefee as u64, gas);
        let e = expect(&m, sc, &db, tx.clone());
        if e.facts.steps > STEP_CAP {
            break;
        }
        let Ok(res) = &e.obs.res else { continue };
        let mut enc = vec![];
        envelope(&tx).encode_2718(&mut enc);
        let (size, da) = (enc.len() as u64, op_alloy_flz::tx_estimated_size_fjord_bytes(&enc));
        marks.push([
            gas,
            sums[1].saturating_add(gas),
            size,
            sums[3] + size,
            da,
            sums[5] + da,
            sums[6] + e.obs.usage.data,
            sums[7] + e.obs.usage.kv,
            sums[8] + e.obs.usage.compute,
            sums[9] + e.obs.usage.growth,
        ]);
        sums[1] += res.gas_used;
        for i in [3, 5, 6, 7, 8, 9] {
            sums[i] = marks.last().unwrap()[i];
        }
        db.apply(&e.obs.state);
    }
    if marks.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 2) {
        let i = r.below(10) as usize;
        let v = r.pick(&marks)[i];
        *c.lim.get(i) = match r.below(4) {
            0 | 1 => v,
            2 => v.saturating_sub(1),
            _ => v.saturating_add(1),
        };
    }
    if r.pct(5) {
        *c.lim.get(r.below(10) as usize) = 0;
    }
}

fn gen_case(r: &mut Rng, txs: u64, ops: u64) -> BlkCase {
    let p = Profile {
        specs: [3, 2, 2, 2, 3, 3, 3],
        ty: [5, 3, 3, 2, 4],
        lim: [10, 2, 1, 2],
        max_txs: txs,
        stmts: 4,
        bad: 6,
        system: 4,
        ..Default::default()
    };
    let mut g = G { r, p: &p };
    let mut sc = g.scenario();
    if g.r.pct(25) {
        g.add_keyless(&mut sc, 40);
    }
    if g.r.pct(12) {
        // ether waiting where the block puts contracts
        for who in [Ref::Oracle, Ref::TsOracle, Ref::Keyless] {
            let balance = g.r.pick(&[0, 1, 500]);
            match sc.accs.iter_mut().find(|a| a.who == who) {
                Some(a) => a.balance = balance,
                None => sc.accs.push(AccP { who, balance, nonce: 0, code: Code::None, storage: vec![] }),
            }
        }
    }
    let n = g.r.range(1, ops);
    BlkCase {
        ops: gen_ops(g.r, n, sc.txs.len()),
        alt: g.r.pct(40),
        hist: if g.r.pct(60) { 0 } else { g.r.range(1, 3) as u8 },
        parent: g.r.u8(3),
        root: g.r.u8(3),
        lim: NO_BLIM,
        via: g.r.u8(32),
        sc,
    }
}

pub struct BlockProp;
impl Prop for BlockProp {
    type In = BlkCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn gen(&self, r: &mut Rng) -> BlkCase {
        let mut c = gen_case(r, 4, 10);
        if r.pct(25) {
            tighten(r, &mut c);
        }
        c
    }
    fn check(&self, c: &BlkCase) -> Outcome {
        let st = run_block(c).map_err(|m| Fail::new(m.what, m.detail))?;
        let mut p = Pass { nontrivial: st.committed >= 2, evals: c.ops.len().saturating_sub(1) as u64, ..Default::default() };
        tags(&mut p, &st);
        Ok(p)
    }
    fn budget(&self) -> (u64, u64) {
        (30_000, 900_000)
    }
    fn rule(&self) -> &'static str {
        "Random worlds and blocks, run by an executor made directly, with an inspector or through the generic factory, of 1-10 operations (execute, execute without committing, run and keep the outcome, commit a kept outcome) over 1-4 generated transactions of every type, with a hardfork schedule, history contracts and sometimes tight block limits; every result, receipt, running total, the state hook, the executor's state and the resulting bundle are compared with the reference model applied transaction by transaction. Non-trivial: at least two transactions were committed."
    }
}

fn tags(p: &mut Pass, st: &BlkStats) {
    if st.heavy {
        tag(p, "not judged: too long");
    }
    for (n, k) in [
        ("committed", st.committed),
        ("refused", st.refused),
        ("invalid", st.invalid),
        ("dropped", st.dropped),
        ("refused at commit", st.stale_refused),
    ] {
        if k > 0 {
            tag(p, n);
        }
    }
    for w in &st.why {
        tag(p, &format!("why:{w}"));
    }
    for w in &st.results {
        tag(p, &format!("result:{w}"));
    }
}

// ---- admission on its own -------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub gas: u64,
    pub size: u64,
    pub da: u64,
    pub deposit: bool,
    pub commit: bool,
    /// Gas used, in 1/255 of the gas limit.
    pub used: u8,
    pub usage: [u64; 4],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LimCase {
    Block(BlkCase),
    Pure { lim: BLim, steps: Vec<Step> },
}

pub struct AdmitProp;
impl Prop for AdmitProp {
    type In = LimCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn gen(&self, r: &mut Rng) -> LimCase {
        if r.pct(40) {
            let mut c = gen_case(r, 3, 12);
            tighten(r, &mut c);
            return LimCase::Block(c);
        }
        fn num(r: &mut Rng) -> u64 {
            match r.below(8) {
                0 => u64::MAX - r.below(4),
                1 => (1 << 63) + r.below(4) - 2,
                2 => r.next(),
                3 => r.below(4),
                _ => r.below(60),
            }
        }
        let mut lim = NO_BLIM.clone();
        lim.gas = if r.pct(70) { r.below(200) } else { num(r) };
        for i in 0..10 {
            if i != 1 && r.pct(40) {
                *lim.get(i) = if r.pct(80) { r.below(200) } else { num(r) };
            }
        }
        let n = r.range(1, 12);
        let big = r.pct(40);
        let steps = (0..n)
            .map(|_| Step {
                gas: if big { num(r) } else { r.below(60) },
                size: if big { num(r) } else { r.below(60) },
                da: if big { num(r) } else { r.below(60) },
                deposit: r.pct(30),
                commit: r.pct(80),
                used: r.u8(255),
                usage: std::array::from_fn(|_| r.below(60)),
            })
            .collect();
        LimCase::Pure { lim, steps }
    }
    fn check(&self, c: &LimCase) -> Outcome {
        match c {
            LimCase::Block(c) => {
                let st = run_block(c).map_err(|m| Fail::new(m.what, m.detail))?;
                let mut p = Pass {
                    nontrivial: st.refused + st.stale_refused > 0 && st.committed > 0,
                    evals: c.ops.len().saturating_sub(1) as u64,
                    ..Default::default()
                };
                tag(&mut p, "block");
                tags(&mut p, &st);
                Ok(p)
            }
            LimCase::Pure { lim, steps } => {
                let bl = lim.limits(no_limits());
                let mut l = BlockLimiter::new(bl);
                let mut s = Sums::default();
                let mut p = Pass { evals: steps.len().saturating_sub(1) as u64, ..Default::default() };
                let (mut yes, mut no) = (0, 0);
                for (i, t) in steps.iter().enumerate() {
                    let ts = TxSize { gas: t.gas, size: t.size, da: t.da, deposit: t.deposit };
                    let why = refusals(&bl, &s, ts);
                    let r = l.pre_execution_check(keccak256([i as u8]), t.gas, t.size, t.da, t.deposit);
                    match (&r, why.is_empty()) {
                        (Ok(()), false) => return Err(Fail::new("admitted", format!("step {i}: must be refused ({why:?})"))),
                        (Err(e), true) => return Err(Fail::new("accept", format!("step {i}: refused with {e:?}"))),
                        (Err(e), false) => {
                            no += 1;
                            check_refusal(&format!("step {i}"), &format!("{e:?}"), &why).map_err(|m| Fail::new(m.what, m.detail))?;
                            for w in &why {
                                tag(&mut p, &format!("why:{}", w.split('{').next().unwrap().trim()));
                            }
                        }
                        (Ok(()), true) => {
                            yes += 1;
                            if !t.commit {
                                continue;
                            }
                            let used = (t.gas as u128 * t.used as u128 / 255) as u64;
                            let u = t.usage;
                            let da = sums_of(&l).da;
                            // totals beyond 64 bits do not occur
                            if s.da + t.da as u128 > u64::MAX as u128 {
                                break;
                            }
                            l.post_execution_update_raw(used, t.size, t.da, u[0], u[1], u[2], u[3], t.deposit);
                            s.gas += used as u128;
                            s.size += t.size as u128;
                            s.data += u[0] as u128;
                            s.kv += u[1] as u128;
                            s.compute += u[2] as u128;
                            s.growth += u[3] as u128;
                            let got = sums_of(&l).da;
                            s.da = if !t.deposit || (got != da && got != da + t.da as u128) { da + t.da as u128 } else { got };
                        }
                    }
                    let got = sums_of(&l);
                    if got != s {
                        return Err(Fail::new("sums", format!("step {i}: expected {s:?}, got {got:?}")));
                    }
                    let full = s.gas >= bl.block_gas_limit as u128
                        || s.size >= bl.block_txs_encode_size_limit as u128
                        || s.da >= bl.block_da_size_limit as u128
                        || s.data >= bl.block_txs_data_limit as u128
                        || s.kv >= bl.block_kv_update_limit as u128
                        || s.compute >= bl.block_compute_gas_limit as u128
                        || s.growth >= bl.block_state_growth_limit as u128;
                    if l.is_block_limit_reached() != full {
                        return Err(Fail::new("reached", format!("step {i}: expected {full} for {s:?}")));
                    }
                }
                p.nontrivial = yes > 0 && no > 0;
                tag(&mut p, "pure");
                Ok(p)
            }
        }
    }
    fn budget(&self) -> (u64, u64) {
        (60_000, 1_500_000)
    }
    fn rule(&self) -> &'static str {
        "Either a generated block (as for C18) with one or two block limits placed at, just below or just above a total the block reaches, or a sequence of admission checks and updates of the block limiter alone with numbers up to 2^64-1; the admission decision, its stated reason and the running totals are compared with exact integer arithmetic. Non-trivial: something was admitted and something refused."
    }
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(BlockProp), Box::new(AdmitProp)]
}
