//! Running scenarios on the EVM under test and observing what a user can observe.
use crate::{scen::*, world::*};
use alloy_primitives::{Address, Bytes, U256};
use mega_evm::{
    EvmTxRuntimeLimits, ExternalEnvs, MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
};
use op_revm::L1BlockInfo;
use revm::{
    context::{
        result::{ExecutionResult, Output},
        BlockEnv, CfgEnv,
    },
    inspector::NoOpInspector,
    primitives::Log,
    state::EvmState,
    Inspector,
};

pub type Ext = (Salt, Orc);
pub type Mega<I> = MegaEvm<MemDb, I, Ext>;
pub type Ctx = MegaContext<MemDb, Ext>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ResObs {
    /// "success(reason)", "revert" or "halt(reason)".
    pub kind: String,
    pub gas_used: u64,
    pub refunded: u64,
    pub output: Bytes,
    pub created: Option<Address>,
    pub logs: Vec<Log>,
}

pub fn observe<H: std::fmt::Debug>(r: &ExecutionResult<H>) -> ResObs {
    match r {
        ExecutionResult::Success { reason, gas_used, gas_refunded, logs, output } => ResObs {
            kind: format!("success({reason:?})"),
            gas_used: *gas_used,
            refunded: *gas_refunded,
            output: output.data().clone(),
            created: match output {
                Output::Create(_, a) => *a,
                _ => None,
            },
            logs: logs.clone(),
        },
        ExecutionResult::Revert { gas_used, output } => ResObs {
            kind: "revert".into(),
            gas_used: *gas_used,
            refunded: 0,
            output: output.clone(),
            created: None,
            logs: vec![],
        },
        ExecutionResult::Halt { reason, gas_used } => ResObs {
            kind: format!("halt({reason:?})"),
            gas_used: *gas_used,
            refunded: 0,
            output: Bytes::new(),
            created: None,
            logs: vec![],
        },
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Usage {
    pub data: u64,
    pub kv: u64,
    pub compute: u64,
    pub growth: u64,
}

/// Everything observable about one transaction.
#[derive(Clone, Debug)]
pub struct Obs {
    pub res: Result<ResObs, String>,
    pub usage: Usage,
    pub state: EvmState,
    pub hints: Vec<Hint>,
    pub buckets: Vec<u32>,
    pub volatile: u16,
    /// What the context's own accessors report differently from the outcome.
    pub odd: Option<String>,
}

/// The context answers after a transaction what the outcome says.
fn odd<I: Inspector<Ctx>>(evm: &Mega<I>, data: u64, kv: u64) -> Option<String> {
    let c = &evm.ctx;
    let t = c.volatile_data_tracker.borrow();
    let v = t.get_volatile_data_accessed();
    let bits = v.bits();
    let env = bits & 0x3ff;
    let facts = [
        ("generated_data_size", c.generated_data_size() == data),
        ("kv_update_count", c.kv_update_count() == kv),
        ("accessed_bucket_ids", {
            let (mut a, mut b) = (c.accessed_bucket_ids(), evm.get_accessed_bucket_ids());
            a.sort();
            b.sort();
            a == b
        }),
        ("get_block_env_accesses", c.get_block_env_accesses().bits() == env),
        ("tracker.get_block_env_accesses", t.get_block_env_accesses().bits() == env),
        ("block_env_only", v.block_env_only().bits() == env),
        ("raw", v.raw() == bits),
        ("has_block_env_access", v.has_block_env_access() == (env != 0)),
        ("has_beneficiary_balance_access", v.has_beneficiary_balance_access() == (bits & 1 << 10 != 0)),
        ("has_oracle_access", v.has_oracle_access() == (bits & 1 << 11 != 0)),
        ("has_accessed_beneficiary_balance", t.has_accessed_beneficiary_balance() == (bits & 1 << 10 != 0)),
        ("has_accessed_oracle", t.has_accessed_oracle() == (bits & 1 << 11 != 0)),
        ("count_block_env_accessed", v.count_block_env_accessed() == env.count_ones() as usize),
        ("count_accessed", v.count_accessed() == env.count_ones() as usize),
        ("accessed", t.accessed() == (bits != 0)),
        ("get_compute_gas_limit", t.get_compute_gas_limit().is_some() == (bits != 0)),
        ("get_volatile_data_info", t.get_volatile_data_info().map(|(a, l)| (a.bits(), Some(l))) == (bits != 0).then(|| (bits, t.get_compute_gas_limit()))),
    ];
    facts.iter().find(|f| !f.1).map(|f| format!("{} disagrees (volatile record {bits:b}, data {data}, kv {kv})", f.0))
}

pub fn cfg_of(spec: MegaSpecId) -> CfgEnv<MegaSpecId> {
    let mut c = CfgEnv::new_with_spec(spec);
    c.chain_id = CHAIN_ID;
    c
}

pub fn new_evm(
    db: MemDb,
    block: BlockEnv,
    cfg: CfgEnv<MegaSpecId>,
    limits: Option<EvmTxRuntimeLimits>,
    salt: Salt,
    orc: Orc,
) -> Mega<NoOpInspector> {
    let ctx = MegaContext::new(db, cfg.spec)
        .with_cfg(cfg)
        .with_block(block)
        .with_chain(L1BlockInfo::default())
        .with_external_envs(ExternalEnvs::<Ext> { salt_env: salt, oracle_env: orc });
    let ctx = match limits {
        Some(l) => ctx.with_tx_runtime_limits(l),
        None => ctx,
    };
    MegaEvm::new(ctx)
}

pub fn exec<I: Inspector<Ctx>>(evm: &mut Mega<I>, orc: &Orc, tx: MegaTransaction) -> Obs {
    orc.hints.borrow_mut().clear();
    let out = evm.execute_transaction(tx);
    let hints = orc.hints.borrow().clone();
    let mut buckets = evm.get_accessed_bucket_ids();
    buckets.sort();
    let volatile = evm.ctx.volatile_data_tracker.borrow().get_volatile_data_accessed().bits();
    match out {
        Ok(o) => Obs {
            odd: odd(evm, o.data_size, o.kv_updates),
            res: Ok(observe(&o.result)),
            usage: Usage {
                data: o.data_size,
                kv: o.kv_updates,
                compute: o.compute_gas_used,
                growth: o.state_growth_used,
            },
            state: o.state,
            hints,
            buckets,
            volatile,
        },
        Err(e) => Obs {
            odd: None,
            res: Err(format!("{e:?}")),
            usage: Usage::default(),
            state: Default::default(),
            hints,
            buckets,
            volatile,
        },
    }
}

pub fn state_diff(a: &MemDb, b: &MemDb) -> Option<String> {
    if a.accounts == b.accounts {
        return None;
    }
    let mut out = String::new();
    let mut keys: Vec<&Address> = a.accounts.keys().chain(b.accounts.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let (x, y) = (a.accounts.get(k), b.accounts.get(k));
        if x == y {
            continue;
        }
        out += &format!("{k}:");
        match (x, y) {
            (Some(x), Some(y)) => {
                if x.balance != y.balance {
                    out += &format!(" balance {} vs {};", x.balance, y.balance);
                }
                if x.nonce != y.nonce {
                    out += &format!(" nonce {} vs {};", x.nonce, y.nonce);
                }
                if x.code != y.code {
                    out += &format!(" code len {} vs {};", x.code.len(), y.code.len());
                }
                let mut ks: Vec<&U256> = x.storage.keys().chain(y.storage.keys()).collect();
                ks.sort();
                ks.dedup();
                for s in ks {
                    let (u, v) = (x.storage.get(s), y.storage.get(s));
                    if u != v {
                        out += &format!(" slot {s}: {u:?} vs {v:?};");
                    }
                }
            }
            (Some(_), None) => out += " only in the first;",
            (None, Some(_)) => out += " only in the second;",
            _ => {}
        }
        out.push(' ');
    }
    Some(out)
}
