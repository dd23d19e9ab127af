//! Opening blocks, merging states, and the ether supply.
use crate::{diff::*, gen::*, mega::*, props2::*, props3::Envs, props5::*, rng::Rng, runner::*, scen::*, world::*};
use alloy_evm::{block::BlockExecutor, EvmEnv};
use alloy_hardforks::ForkCondition;
use alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use alloy_primitives::{Address, Bytes, B256, U256};
use mega_evm::{
    merge_evm_state, merge_evm_state_optional_status, BlockLimits, EvmTxRuntimeLimits, MegaBlockExecutionCtx,
    MegaBlockExecutorFactory, MegaEvmFactory, MegaHardfork, MegaHardforkConfig, MegaHardforks, MegaSpecId,
};
use revm::{
    database::State,
    state::{AccountStatus, EvmState},
    DatabaseCommit,
};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

// ---- C21: schedules and the opening of blocks ------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cond {
    Absent,
    Never,
    At(u8),
    Block(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SysAcc {
    /// 0: none, 1: the code of the first version, 2: the code of the last version, 3: other code,
    /// 4: no code.
    pub kind: u8,
    pub balance: u8,
    pub nonce: u8,
    pub storage: Vec<(u8, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OBlk {
    pub dt: u8,
    pub root: Option<u8>,
    pub parent: u8,
    /// Open the block twice.
    pub again: bool,
    /// Compute the changes, then commit them.
    pub split: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpenCase {
    pub conds: Vec<Cond>,
    pub edits: Vec<(u8, Cond)>,
    pub number: u64,
    pub base_ts: u64,
    pub sys: Vec<SysAcc>,
    pub hist: u8,
    pub blocks: Vec<OBlk>,
    pub sets: Vec<(u8, u64)>,
}

const NAMES: [MegaHardfork; 8] = FORKS;

impl OpenCase {
    fn config(&self) -> (MegaHardforkConfig, Vec<Option<u64>>) {
        let mut c = MegaHardforkConfig::default();
        let mut at = vec![None; 8];
        let all = self.conds.iter().enumerate().map(|(i, c)| (i as u8, *c));
        for (i, cond) in all.chain(self.edits.iter().copied()) {
            let i = i as usize % 8;
            let f = NAMES[i];
            at[i] = None;
            match cond {
                Cond::Absent => c = c.without(f),
                Cond::Never => c.insert(f, ForkCondition::Never),
                Cond::At(d) => {
                    at[i] = Some(self.base_ts + d as u64);
                    c = c.with(f, ForkCondition::Timestamp(self.base_ts + d as u64));
                }
                Cond::Block(b) => c.insert(f, ForkCondition::Block(b as u64)),
            }
        }
        (c, at)
    }
}

fn latest(at: &[Option<u64>], ts: u64) -> Option<usize> {
    (0..8).rev().find(|i| at[*i].is_some_and(|t| t <= ts))
}
const SPEC_OF: [u8; 8] = [1, 0, 1, 2, 3, 4, 5, 6];

fn block_limits_of(fork: usize, gas: u64) -> BlockLimits {
    const M: u64 = u64::MAX;
    let data = 13_107_200;
    let (tx, block): ([u64; 6], [u64; 3]) = match fork {
        1 => ([M, M, M, M, M, M], [M, M, M]),
        0 | 2 => ([data / 4, 125_000, 1_000_000_000, M, 20_000_000, 1_000_000], [data, 500_000, M]),
        3..=5 => ([data, 500_000, 200_000_000, 1000, 20_000_000, 1_000_000], [data, 500_000, 1000]),
        _ => ([data, 500_000, 200_000_000, 1000, 20_000_000, 20_000_000], [data, 500_000, 1000]),
    };
    BlockLimits {
        tx_gas_limit: M,
        block_gas_limit: gas,
        tx_encode_size_limit: M,
        block_txs_encode_size_limit: M,
        tx_da_size_limit: M,
        block_da_size_limit: M,
        tx_data_limit: tx[0],
        tx_kv_update_limit: tx[1],
        tx_compute_gas_limit: tx[2],
        tx_state_growth_limit: tx[3],
        block_env_access_compute_gas_limit: tx[4],
        oracle_access_compute_gas_limit: tx[5],
        block_txs_data_limit: block[0],
        block_kv_update_limit: block[1],
        block_state_growth_limit: block[2],
        block_compute_gas_limit: M,
    }
}

/// Sets one limit through its builder and through its field.
fn set_limit(l: BlockLimits, i: u8, v: u64) -> (BlockLimits, BlockLimits) {
    let mut x = l;
    macro_rules! go {
        ($($n:literal $f:ident $b:ident),*) => {
            match i % 16 {
                $($n => { x.$f = v; (l.$b(v), x) })*
                _ => unreachable!(),
            }
        };
    }
    go!(
        0 tx_gas_limit with_tx_gas_limit,
        1 block_gas_limit with_block_gas_limit,
        2 tx_encode_size_limit with_tx_encode_size_limit,
        3 block_txs_encode_size_limit with_block_txs_encode_size_limit,
        4 tx_da_size_limit with_tx_da_size_limit,
        5 block_da_size_limit with_block_da_size_limit,
        6 tx_data_limit with_tx_data_limit,
        7 block_txs_data_limit with_block_txs_data_limit,
        8 tx_kv_update_limit with_tx_kv_update_limit,
        9 block_kv_update_limit with_block_kv_update_limit,
        10 tx_compute_gas_limit with_tx_compute_gas_limit,
        11 block_compute_gas_limit with_block_compute_gas_limit,
        12 tx_state_growth_limit with_tx_state_growth_limit,
        13 block_state_growth_limit with_block_state_growth_limit,
        14 block_env_access_compute_gas_limit with_block_env_access_compute_gas_limit,
        15 oracle_access_compute_gas_limit with_oracle_access_compute_gas_limit
    )
}

fn code_of(i: usize, kind: u8) -> Bytes {
    use mega_system_contracts::{keyless_deploy, oracle};
    match (kind, i) {
        (1, 0) => oracle::V1_0_0_CODE,
        (2, 0) => oracle::V1_1_0_CODE,
        (1 | 2, 1) => mega_evm::HIGH_PRECISION_TIMESTAMP_ORACLE_CODE,
        (1 | 2, 2) => keyless_deploy::V1_0_0_CODE,
        (3, _) => Bytes::from_static(&[0x60, 0x01, 0x00]),
        _ => Bytes::new(),
    }
}

pub struct OpenProp;
impl Prop for OpenProp {
    type In = OpenCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn gen(&self, r: &mut Rng) -> OpenCase {
        let sorted = r.pct(60);
        let mut conds: Vec<Cond> = (0..8)
            .map(|_| match r.below(12) {
                0 if !sorted => Cond::Absent,
                1 if !sorted => Cond::Never,
                2 if !sorted => Cond::Block(r.u8(20)),
                _ => Cond::At(r.u8(20)),
            })
            .collect();
        if sorted {
            conds.sort_by_key(|c| match c {
                Cond::At(d) => *d,
                _ => 255,
            });
            let n = r.below(9) as usize;
            for c in conds.iter_mut().skip(n) {
                *c = if r.pct(50) { Cond::Never } else { Cond::At(200) };
            }
        }
        let edits = (0..if r.pct(80) { 0 } else { r.range(1, 3) })
            .map(|_| {
                let c = match r.below(4) {
                    0 => Cond::Absent,
                    1 => Cond::Never,
                    _ => Cond::At(r.u8(20)),
                };
                (r.u8(8), c)
            })
            .collect();
        let stored = r.pct(20);
        OpenCase {
            conds,
            edits,
            number: match r.weighted(&[10, 10, 10, 10, 10, 10, 1]) {
                6 => r.pick(&[(1 << 32) - 2, 1 << 32, 1 << 40, 1 << 62]),
                0 => 0,
                1 => 1,
                2 => 8189 + r.below(5),
                3 => r.below(40_000),
                _ => 1 + r.below(100),
            },
            base_ts: match r.weighted(&[10, 10, 10, 10, 2]) {
                4 => r.pick(&[(1 << 31) - 9, (1 << 32) - 9, 1 << 33, 1 << 62]),
                0 => 0,
                1 => 8185,
                _ => 1_700_000_000 + r.below(20_000),
            },
            sys: (0..3)
                .map(|_| SysAcc {
                    kind: r.u8(5),
                    balance: r.u8(3),
                    nonce: r.u8(3),
                    storage: (0..if stored { r.below(4) } else { 0 }).map(|_| (r.u8(5), r.u8(9) + 1)).collect(),
                })
                .collect(),
            hist: r.u8(4),
            blocks: (0..r.range(1, 5))
                .map(|_| OBlk {
                    dt: r.u8(8),
                    root: if r.pct(7) { None } else { Some(if r.pct(30) { 0 } else { r.u8(200) }) },
                    parent: r.u8(200),
                    again: r.pct(20),
                    split: r.pct(30),
                })
                .collect(),
            sets: (0..r.below(6)).map(|_| (r.u8(16), r.next())).collect(),
        }
    }
    fn check(&self, c: &OpenCase) -> Outcome {
        let (hf, at) = c.config();
        let mut p = Pass::default();
        let mut db = MemDb::default();
        for (i, s) in c.sys.iter().enumerate().take(3) {
            if s.kind % 5 == 0 {
                continue;
            }
            let acc = Acc {
                balance: U256::from(s.balance as u64 + (s.kind % 5 == 4) as u64),
                nonce: s.nonce as u64,
                code: code_of(i, s.kind % 5),
                // the block's database takes an account without code and nonce to have no storage
                storage: s.storage.iter().filter(|_| s.kind % 5 != 4 || s.nonce > 0).map(|(k, v)| (U256::from(*k), U256::from(*v as u64 + 1))).collect(),
            };
            db.set([ORACLE, TSORACLE, KEYLESS][i], acc);
        }
        if c.hist & 1 != 0 {
            db.set(HISTORY, Acc { nonce: 1, code: alloy_eips::eip2935::HISTORY_STORAGE_CODE.clone(), ..Default::default() });
        }
        if c.hist & 2 != 0 {
            db.set(BEACON, Acc { nonce: 1, code: Bytes::from_static(&BEACON_CODE), ..Default::default() });
        }
        let mut limits = BlockLimits::no_limits();
        for (i, v) in &c.sets {
            let (a, b) = set_limit(limits, *i, *v);
            if a != b {
                return Err(Fail::new("builder", format!("limit {i} = {v}: {a:?} is not {b:?}")));
            }
            limits = a;
        }
        // the order and the names of the specs
        for (i, a) in SPECS.iter().enumerate() {
            for (j, b) in SPECS.iter().enumerate() {
                if a.is_enabled(*b) != (i >= j) {
                    return Err(Fail::new("order", format!("{a:?}.is_enabled({b:?}) is {}", a.is_enabled(*b))));
                }
            }
            let s: &'static str = (*a).into();
            if a.to_string() != s || s.parse::<MegaSpecId>().ok() != Some(*a) {
                return Err(Fail::new("name", format!("{a:?} is shown as {a}, and {s} read as {:?}", s.parse::<MegaSpecId>().ok())));
            }
        }
        {
            let h = c.config().0.with_all_activated();
            let at = c.sets.first().map_or(0, |s| s.1);
            if h.hardfork(at) != Some(MegaHardfork::Rex4) || h.spec_id(at) != SPECS[6] {
                return Err(Fail::new("all", format!("with every fork activated: {:?} at {at}", h.spec_id(at))));
            }
        }
        let rt = limits.to_evm_tx_runtime_limits();
        let want = EvmTxRuntimeLimits {
            tx_data_size_limit: limits.tx_data_limit,
            tx_kv_updates_limit: limits.tx_kv_update_limit,
            tx_compute_gas_limit: limits.tx_compute_gas_limit,
            tx_state_growth_limit: limits.tx_state_growth_limit,
            block_env_access_compute_gas_limit: limits.block_env_access_compute_gas_limit,
            oracle_access_compute_gas_limit: limits.oracle_access_compute_gas_limit,
        };
        if rt != want {
            return Err(Fail::new("runtime limits", format!("{rt:?} is not {want:?}")));
        }
        if BlockLimits::no_limits().with_tx_runtime_limits(rt).to_evm_tx_runtime_limits() != rt {
            return Err(Fail::new("runtime limits", "lost on the way into a block's limits"));
        }
        let (mut ts, mut number) = (c.base_ts, c.number);
        let mut forks_seen = BTreeSet::new();
        let mut finding = None;
        for (n, b) in c.blocks.iter().enumerate() {
            let parent_ts = ts;
            ts += b.dt as u64;
            let fork = latest(&at, ts);
            let spec = fork.map(|f| SPEC_OF[f]).unwrap_or(0);
            forks_seen.insert(fork);
            let here = format!("block {n} (number {number}, timestamp {ts}, forks {at:?})");
            if hf.hardfork(ts) != fork.map(|f| NAMES[f]) {
                return Err(Fail::new("hardfork", format!("{here}: got {:?}, expected {:?}", hf.hardfork(ts), fork.map(|f| NAMES[f]))));
            }
            if hf.spec_id(ts) != SPECS[spec as usize] {
                return Err(Fail::new("spec", format!("{here}: got {:?}, expected {:?}", hf.spec_id(ts), SPECS[spec as usize])));
            }
            for (i, f) in NAMES.into_iter().enumerate() {
                let on = |t: u64| at[i].is_some_and(|a| a <= t);
                if hf.mega_fork_activation(f).active_at_timestamp(ts) != on(ts) {
                    return Err(Fail::new("activation", format!("{here}: {f:?} active is not {}", on(ts))));
                }
                let first = on(ts) && (number == 1 || !on(parent_ts));
                if hf.first_hardfork_block(f, parent_ts, (number, ts)) != first {
                    return Err(Fail::new("first block", format!("{here}: first block of {f:?} is not {first}")));
                }
            }
            let gas = 30_000_000 + number;
            let bl = match fork {
                Some(f) => {
                    let bl = BlockLimits::from_hardfork_and_block_gas_limit(NAMES[f], gas);
                    if bl != block_limits_of(f, gas) {
                        return Err(Fail::new("block limits", format!("{here}: got {bl:?}, expected {:?}", block_limits_of(f, gas))));
                    }
                    bl
                }
                None => BlockLimits::no_limits().with_block_gas_limit(gas),
            };
            // open it
            let mini_rex = at[0].is_some_and(|a| a <= ts);
            let rex2 = at[5].is_some_and(|a| a <= ts);
            let root = b.root.map(B256::repeat_byte);
            let bad = match root {
                None => Some("MissingParentBeaconBlockRoot"),
                Some(r) if number == 0 && !r.is_zero() => Some("CancunGenesisParentBeaconBlockRootNotZero"),
                _ => None,
            };
            let mut want = db.detach();
            if bad.is_none() {
                pre_block(&mut want, mini_rex, rex2, number, ts, B256::repeat_byte(b.parent), root.unwrap_or_default());
            }
            let factory = MegaBlockExecutorFactory::new(
                hf.clone(),
                MegaEvmFactory::new().with_external_env_factory(Envs(Salt::new(&[]), Orc::default(), Default::default())),
                OpAlloyReceiptBuilder::default(),
            );
            let mut state = State::builder().with_database(db.detach()).with_bundle_update().build();
            let ctx = MegaBlockExecutionCtx::new(B256::repeat_byte(b.parent), root, Bytes::new(), bl);
            let block_env = revm::context::BlockEnv {
                number: U256::from(number),
                timestamp: U256::from(ts),
                gas_limit: gas,
                beneficiary: COINBASE,
                prevrandao: Some(B256::ZERO),
                ..Default::default()
            };
            let env = EvmEnv { cfg_env: cfg_of(SPECS[spec as usize]), block_env };
            let mut ex = factory.create_executor(&mut state, ctx, env);
            let mut outcome = Ok(());
            for _ in 0..1 + b.again as usize {
                outcome = if b.split {
                    ex.pre_execution_changes().and_then(|o| {
                        // what the block starts from is part of what it has read
                        for (a, on) in [(ORACLE, mini_rex), (TSORACLE, mini_rex), (KEYLESS, rex2)] {
                            if on != o.iter().any(|x| x.state.contains_key(&a)) {
                                outcome_panic(&here, a, on);
                            }
                        }
                        ex.commit_system_call_outcomes(o)
                    })
                } else {
                    ex.apply_pre_execution_changes()
                };
                if outcome.is_err() {
                    break;
                }
            }
            match (outcome, bad) {
                (Ok(()), Some(b)) => return Err(Fail::new("opened", format!("{here}: must fail with {b}"))),
                (Err(e), None) => return Err(Fail::new("refused", format!("{here}: {e:?}"))),
                (Err(e), Some(b)) => {
                    if !format!("{e:?}").contains(b) {
                        return Err(Fail::new("refused", format!("{here}: expected {b}, got {e:?}")));
                    }
                    tag(&mut p, b);
                }
                (Ok(()), None) => {}
            }
            if let Some(f) = take_panic() {
                return Err(f);
            }
            let (evm, res) = ex.finish().map_err(|e| Fail::new("finish", format!("{here}: {e:?}")))?;
            drop(evm);
            if res.gas_used != 0 || !res.receipts.is_empty() {
                return Err(Fail::new("empty block", format!("{here}: {res:?}")));
            }
            let fail = |m: Mismatch| Fail::new(m.what, format!("{here}: {}", m.detail));
            if let Err(x) = check_cached(&want, &db, &mut state) {
                // a known finding: the storage of a redeployed contract cannot be read in its block
                let mut hidden = want.detach();
                for a in [ORACLE, TSORACLE, KEYLESS] {
                    if db.accounts.get(&a).is_some_and(|d| want.accounts.get(&a).is_some_and(|w| w.code != d.code)) {
                        hidden.accounts.get_mut(&a).expect("there").storage.clear();
                    }
                }
                if check_cached(&hidden, &db, &mut state).is_err() {
                    return Err(fail(x));
                }
                finding = Some(Fail::new("redeployed system contract reads as empty", format!("{here}: {}", x.detail)));
            }
            check_bundle(&want, &db, &mut state).map_err(fail)?;
            if want.accounts.get(&ORACLE).map(|a| &a.code) != db.accounts.get(&ORACLE).map(|a| &a.code) && db.accounts.contains_key(&ORACLE) {
                tag(&mut p, "oracle upgraded");
                if db.accounts[&ORACLE].storage.len() > 0 {
                    tag(&mut p, "oracle upgraded with storage");
                }
            }
            p.evals += 1;
            db = want;
            number += 1;
        }
        for f in &forks_seen {
            tag(&mut p, &format!("fork:{}", f.map(|f| format!("{:?}", NAMES[f])).unwrap_or("none".into())));
        }
        if let Some(f) = finding {
            return Err(f);
        }
        p.nontrivial = forks_seen.iter().any(|f| f.is_some());
        p.evals = p.evals.saturating_sub(1);
        Ok(p)
    }
    fn budget(&self) -> (u64, u64) {
        (200_000, 1_000_000)
    }
    fn rule(&self) -> &'static str {
        "Random hardfork schedules (ordered and not, with forks missing, never, by block, and edited afterwards), chains of 1-5 blocks around the activation times from a random block number, system contract accounts that are absent, old, current, foreign or without code, with balance, nonce and storage, and history contracts that exist or not; the spec (its order and name), hardfork, first-block answer, block limits and the state after opening each block (once or twice, in one step or two) are compared with a direct model, through the executor's state and through the bundle. Non-trivial: some hardfork is active in some block."
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
}

thread_local!(static PANIC: std::cell::RefCell<Option<Fail>> = const { std::cell::RefCell::new(None) });
fn outcome_panic(here: &str, a: Address, on: bool) {
    PANIC.with(|p| {
        *p.borrow_mut() = Some(Fail::new("read set", format!("{here}: opening the block must {} {a}", if on { "read" } else { "leave alone" })))
    });
}
fn take_panic() -> Option<Fail> {
    PANIC.with(|p| p.borrow_mut().take())
}

// ---- C22: merging states ---------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MergeCase {
    pub sc: Scenario,
    pub cut: u8,
}

pub struct MergeProp;

/// The parts of a state that merging is about.
fn shape(s: &EvmState) -> BTreeMap<Address, (AccountStatus, BTreeMap<U256, (U256, bool)>)> {
    s.iter()
        .map(|(a, x)| (*a, (x.status, x.storage.iter().map(|(k, v)| (*k, (v.present_value, v.is_cold))).collect())))
        .collect()
}

fn merge_all(xs: &[EvmState]) -> EvmState {
    let mut it = xs.iter();
    let mut out = it.next().cloned().unwrap_or_default();
    for x in it {
        merge_evm_state(&mut out, x);
    }
    out
}

impl Prop for MergeProp {
    type In = MergeCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn gen(&self, r: &mut Rng) -> MergeCase {
        let mut p = Profile {
            specs: [3, 2, 2, 2, 4, 3, 3],
            ty: [5, 2, 3, 3, 4],
            lim: [10, 3, 0, 1],
            max_txs: 6,
            create_tx: 30,
            stmts: 5,
            bad: 3,
            ..Default::default()
        };
        p.w.create *= 3;
        p.w.selfdestruct *= 4;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        if sc.txs.len() < 2 {
            let t = g.tx(sc.spec);
            sc.txs.push(t);
        }
        if g.r.pct(15) {
            g.add_keyless(&mut sc, 40);
        }
        MergeCase { sc, cut: g.r.u8(6) }
    }
    fn check(&self, c: &MergeCase) -> Outcome {
        let sc = &c.sc;
        let limits = resolve_limits(sc);
        let m = model_of(sc, limits);
        let db0 = sc.db();
        let mut db = db0.detach();
        let orc = Orc { values: std::rc::Rc::new(sc.oracle_values()), ..Default::default() };
        let mut states: Vec<EvmState> = vec![];
        let mut destroyed = 0;
        for t in &sc.txs {
            let gas = resolve_gas(sc, &m, &db, t);
            let tx = build_tx(t, &db, sc.basefee as u64, gas.min(40_000_000));
            let mut evm = new_evm(db.detach(), sc.block(), cfg_of(sc.spec()), Some(limits), salt_of(sc), orc.clone());
            let o = exec(&mut evm, &orc, tx);
            if o.res.is_err() {
                continue;
            }
            destroyed += o.state.values().filter(|a| a.is_selfdestructed()).count();
            db.apply(&o.state);
            states.push(o.state);
        }
        let mut p = Pass { nontrivial: states.len() >= 2, ..Default::default() };
        if destroyed > 0 {
            tag(&mut p, "destroyed");
        }
        if states.is_empty() {
            return Ok(p);
        }
        let empties = |d: &mut MemDb| d.accounts.retain(|_, a| !(a.balance.is_zero() && a.nonce == 0 && a.code.is_empty()));
        let mut want = db.detach();
        empties(&mut want);
        let judge = |what: &'static str, s: &EvmState| -> Result<(), Fail> {
            let mut d = db0.detach();
            d.apply(s);
            empties(&mut d);
            match state_diff(&want, &d) {
                Some(x) => Err(Fail::new(what, format!("one by one vs merged: {x}"))),
                None => Ok(()),
            }
        };
        // from nothing
        let mut merged = EvmState::default();
        for (i, s) in states.iter().enumerate() {
            let before = shape(&merged);
            let mut half = merged.clone();
            merge_evm_state(&mut merged, s);
            merge_evm_state_optional_status(&mut half, s, false);
            let after = shape(&merged);
            let want_keys: BTreeSet<Address> = before.keys().chain(s.keys()).copied().collect();
            if after.keys().copied().collect::<BTreeSet<_>>() != want_keys {
                return Err(Fail::new("read set", format!("merge {i}: accounts {:?}, expected {want_keys:?}", after.keys())));
            }
            for (a, (status, slots)) in &after {
                let old = before.get(a);
                let new = s.get(a);
                let bad = |w: &str| Err(Fail::new("flags", format!("merge {i}: {a}: {w} (was {old:?}, now {status:?})")));
                if status.contains(AccountStatus::SelfDestructed)
                    || status.contains(AccountStatus::CreatedLocal)
                    || status.contains(AccountStatus::SelfDestructedLocal)
                {
                    return bad("must not be destroyed or local");
                }
                let cold = old.map(|o| o.0.contains(AccountStatus::Cold)).unwrap_or(true);
                if status.contains(AccountStatus::Cold) != cold {
                    return bad("warmth");
                }
                let Some(n) = new else {
                    if old != Some(&(*status, slots.clone())) {
                        return bad("changed without being in the other state");
                    }
                    continue;
                };
                if n.is_selfdestructed() {
                    if !status.contains(AccountStatus::Touched) || !slots.is_empty() || !merged[a].info.is_empty() {
                        return bad("a destroyed account becomes an empty, touched one");
                    }
                    continue;
                }
                if status.contains(AccountStatus::Touched) != (n.is_touched() || old.is_some_and(|o| o.0.contains(AccountStatus::Touched))) {
                    return bad("touched");
                }
                if status.contains(AccountStatus::Created) != (n.is_created() || old.is_some_and(|o| o.0.contains(AccountStatus::Created))) {
                    return bad("created");
                }
                let x = &merged[a];
                if (x.info.balance, x.info.nonce, x.info.code_hash) != (n.info.balance, n.info.nonce, n.info.code_hash) {
                    return bad("info");
                }
                let keys: BTreeSet<U256> = n.storage.keys().copied().chain(old.iter().flat_map(|o| o.1.keys().copied())).collect();
                if keys != slots.keys().copied().collect() {
                    return bad("slots read");
                }
                for (k, (v, cold)) in slots {
                    let was = old.and_then(|o| o.1.get(k));
                    let value = n.storage.get(k).map(|s| s.present_value).or(was.map(|w| w.0)).unwrap_or_default();
                    if *v != value || *cold != was.map(|w| w.1).unwrap_or(true) {
                        return Err(Fail::new("slot", format!("merge {i}: {a} slot {k}: got {v}, cold {cold}; expected {value}, was {was:?}")));
                    }
                }
                // without the status
                if let Some(o) = old {
                    if half[a].status != o.0 || half[a].info.balance != n.info.balance {
                        return bad("merging without the status");
                    }
                }
            }
        }
        judge("merged", &merged)?;
        // onto the first as it is, and in another grouping
        judge("merged onto the first", &merge_all(&states))?;
        let cut = c.cut as usize % states.len();
        let mut left = merge_all(&states[..cut]);
        if cut > 0 {
            // a state that only results from one transaction may still hold destroyed accounts
            let mut l = EvmState::default();
            merge_evm_state(&mut l, &left);
            left = l;
        }
        let mut right = EvmState::default();
        for s in &states[cut..] {
            merge_evm_state(&mut right, s);
        }
        merge_evm_state(&mut left, &right);
        judge("grouping", &left)?;
        // once more
        let last = states.last().expect("not empty");
        merge_evm_state(&mut merged, last);
        judge("repeated", &merged)?;
        // through the database that blocks use, which cannot take an account that had a balance
        // and is left empty
        if merged.iter().any(|(a, x)| x.is_touched() && x.info.is_empty() && db0.accounts.get(a).is_some_and(|d| !d.balance.is_zero())) {
            tag(&mut p, "funded, then destroyed");
            return Ok(p);
        }
        let mut state = State::builder().with_database(db0.detach()).with_bundle_update().build();
        state.set_state_clear_flag(true);
        for a in merged.keys() {
            let _ = state.load_cache_account(*a);
        }
        state.commit(merged);
        let mut base = db0.detach();
        empties(&mut base);
        check_state(&want, &base, &mut state).map_err(|m| Fail::new(m.what, m.detail))?;
        p.evals = states.len() as u64;
        tag(&mut p, &format!("states:{}", states.len()));
        Ok(p)
    }
    fn budget(&self) -> (u64, u64) {
        (90_000, 1_500_000)
    }
    fn rule(&self) -> &'static str {
        "Random worlds and 2-6 transactions rich in creations and self-destructs; the states they leave are merged one after another (onto nothing, onto the first, grouped, and with the last repeated) and compared with committing them one by one, in a plain map and in the database that blocks use, along with the read set, flags and warmth after every merge. Non-trivial: at least two transactions left a state."
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
}

// ---- C23: the ether supply -------------------------------------------------------------------------

pub struct SupplyProp;
impl Prop for SupplyProp {
    type In = Scenario;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn gen(&self, r: &mut Rng) -> Scenario {
        let mut p = Profile {
            specs: [3, 2, 2, 2, 3, 3, 3],
            ty: [5, 2, 4, 3, 4],
            lim: [8, 2, 2, 5],
            max_txs: 4,
            value: 60,
            bad: 5,
            system: 4,
            poor: 15,
            odd_coinbase: 25,
            ..Default::default()
        };
        p.w.selfdestruct *= 2;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        if g.r.pct(30) {
            g.add_keyless(&mut sc, 50);
        }
        sc
    }
    fn check(&self, sc: &Scenario) -> Outcome {
        let limits = resolve_limits(sc);
        let m = model_of(sc, limits);
        let mut db = sc.db();
        let orc = Orc { values: std::rc::Rc::new(sc.oracle_values()), ..Default::default() };
        let mut p = Pass::default();
        for (i, t) in sc.txs.iter().enumerate() {
            let gas = resolve_gas(sc, &m, &db, t);
            let tx = build_tx(t, &db, sc.basefee as u64, gas.min(100_000_000));
            let mint = tx.deposit.mint.unwrap_or_default();
            let deposit = tx.base.tx_type == 0x7e;
            let mut evm = new_evm(db.detach(), sc.block(), cfg_of(sc.spec()), Some(limits), salt_of(sc), orc.clone());
            let o = exec(&mut evm, &orc, tx);
            let before = db.total();
            let mut after_db = db.detach();
            after_db.apply(&o.state);
            let after = after_db.total();
            let Ok(r) = &o.res else {
                if after != before {
                    return Err(Fail::new("rejected", format!("tx {i}: rejected, yet the supply went from {before} to {after}")));
                }
                continue;
            };
            let due = before + U256::from(if deposit { mint } else { 0 });
            let destroyed = o.state.values().any(|a| a.is_selfdestructed());
            if after > due || (!destroyed && after != due) {
                return Err(Fail::new(
                    if after > due { "created ether" } else { "lost ether" },
                    format!("tx {i} ({}): the supply went from {before} to {after}, expected {due}", r.kind),
                ));
            }
            if after < due {
                tag(&mut p, "burned");
            }
            if r.gas_used > 0 && !deposit && sc.basefee > 0 {
                tag(&mut p, "paid");
                p.nontrivial = true;
            }
            if mint > 0 && deposit {
                tag(&mut p, "minted");
                p.nontrivial = true;
            }
            db = after_db;
            p.evals += 1;
        }
        p.evals = p.evals.saturating_sub(1);
        Ok(p)
    }
    fn budget(&self) -> (u64, u64) {
        (150_000, 4_000_000)
    }
    fn rule(&self) -> &'static str {
        "Random worlds and 1-4 transactions of every type and spec, with fees, values, mints, L1 fees, limits, keyless deployments and self-destructs; the sum of all balances after each transaction is compared with the sum before it. Non-trivial: a fee was paid or ether was minted."
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(OpenProp), Box::new(MergeProp), Box::new(SupplyProp)]
}
