//! The differential: the EVM under test against the reference model, transaction by transaction.
use crate::{mega::*, model::*, scen::*, world::*};
use alloy_primitives::{Address, Bytes, U256};
use mega_evm::{EvmTxRuntimeLimits, MegaHaltReason, MegaTransaction};
use op_revm::OpHaltReason;
use revm::context::result::{ExecutionResult, HaltReason, OutOfGasError};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub what: &'static str,
    pub detail: String,
}

pub fn mism(what: &'static str, detail: impl Into<String>) -> Mismatch {
    Mismatch { what, detail: detail.into() }
}

/// What the reference says one transaction does.
#[derive(Clone, Debug)]
pub struct Expect {
    pub obs: Obs,
    pub facts: Facts,
    pub over: Option<Over>,
    /// Gas spent before refunds and floor.
    pub peak_gas: u64,
}

pub fn expect(m: &Rc<RefCell<Model>>, sc: &Scenario, db: &MemDb, tx: mega_evm::MegaTransaction) -> Expect {
    expect_in(m, db, tx, &sc.block(), &cfg_of(sc.spec()))
}

pub fn expect_in(
    m: &Rc<RefCell<Model>>,
    db: &MemDb,
    tx: mega_evm::MegaTransaction,
    block: &revm::context::BlockEnv,
    cfg: &revm::context::CfgEnv<mega_evm::MegaSpecId>,
) -> Expect {
    m.borrow_mut().base = Some(db.detach());
    let out = run_ref(m, db.detach(), block, cfg, tx);
    let m = m.borrow();
    let mut peak = 0;
    let res = match &out.result {
        Err(e) => Err(e.clone()),
        Ok(r) => {
            let mut o = observe(r);
            peak = o.gas_used + o.refunded;
            let oog = matches!(
                r,
                ExecutionResult::Halt {
                    reason: OpHaltReason::Base(HaltReason::OutOfGas(OutOfGasError::Basic)),
                    ..
                }
            );
            if let ExecutionResult::Halt { reason, .. } = r {
                o.kind = format!("halt({:?})", MegaHaltReason::Base(reason.clone()));
            }
            if let Some(over) = out.over {
                if oog || o.kind == "revert" {
                    let reason = match m.volatile_limit {
                        Some(l) if m.compute > l => MegaHaltReason::VolatileDataAccessOutOfGas {
                            access_type: m.volatile,
                            limit: l,
                            actual: m.compute,
                        },
                        _ => match over.dim {
                            Dim::Data => MegaHaltReason::DataLimitExceeded {
                                limit: over.limit,
                                actual: over.used,
                            },
                            Dim::Kv => MegaHaltReason::KVUpdateLimitExceeded {
                                limit: over.limit,
                                actual: over.used,
                            },
                            Dim::Compute => MegaHaltReason::ComputeGasLimitExceeded {
                                limit: over.limit,
                                actual: over.used,
                            },
                            Dim::Growth => MegaHaltReason::StateGrowthLimitExceeded {
                                limit: over.limit,
                                actual: over.used,
                            },
                        },
                    };
                    o.kind = format!("halt({reason:?})");
                    o.output = Default::default();
                }
            }
            Ok(o)
        }
    };
    let usage = if res.is_ok() {
        Usage {
            data: m.data.max(0) as u64,
            kv: m.kv.max(0) as u64,
            compute: m.compute,
            growth: m.growth.max(0) as u64,
        }
    } else {
        Usage::default()
    };
    Expect {
        obs: Obs {
            odd: None,
            res,
            usage,
            state: if out.result.is_ok() { out.state } else { Default::default() },
            hints: m.hints.clone(),
            buckets: m.buckets.keys().copied().collect(),
            volatile: m.volatile.bits(),
        },
        facts: m.facts.clone(),
        over: out.over,
        peak_gas: peak,
    }
}

pub fn no_limits() -> EvmTxRuntimeLimits {
    EvmTxRuntimeLimits {
        tx_data_size_limit: u64::MAX,
        tx_kv_updates_limit: u64::MAX,
        tx_compute_gas_limit: u64::MAX,
        tx_state_growth_limit: u64::MAX,
        block_env_access_compute_gas_limit: u64::MAX,
        oracle_access_compute_gas_limit: u64::MAX,
    }
}

pub fn salt_of(sc: &Scenario) -> Salt {
    Salt::new(&sc.mults)
}

pub fn model_of(sc: &Scenario, l: EvmTxRuntimeLimits) -> Rc<RefCell<Model>> {
    Rc::new(RefCell::new(Model::new(sc.spec(), l, salt_of(sc), Rc::new(sc.oracle_values()))))
}

/// Gas limit of a transaction, from what the reference says it needs.
pub fn resolve_gas(sc: &Scenario, m: &Rc<RefCell<Model>>, db: &MemDb, t: &TxP) -> u64 {
    match t.gas {
        GasP::Abs(g) => g,
        GasP::Rel(_) | GasP::Off(_) => {
            let m2 = Rc::new(RefCell::new(m.borrow().clone()));
            let e = expect(&m2, sc, db, build_tx(t, db, sc.basefee as u64, crate::gen::big_gas(sc.spec)));
            let need = if e.peak_gas == 0 { 100_000 } else { e.peak_gas };
            match t.gas {
                // up to 1279 of the way from the initial charge to what it needs, or of all of it
                GasP::Rel(r) if r < 1280 => {
                    let base = e.facts.initial.min(need);
                    base + ((need - base) as u128 * r as u128 / 1024) as u64
                }
                GasP::Rel(r) => (need as u128 * (r - 1280) as u128 / 1024) as u64,
                GasP::Off(o) => (need as i64 + o as i64).max(0) as u64,
                _ => unreachable!(),
            }
        }
    }
}

pub fn resolve_limits(sc: &Scenario) -> EvmTxRuntimeLimits {
    let mut l = spec_limits(sc.spec());
    match sc.lim {
        LimP::Default => {}
        LimP::NoLimits => l = no_limits(),
        LimP::Abs(v) => {
            let set = |x: &mut u64, v: u64| {
                if v != 0 {
                    *x = v
                }
            };
            set(&mut l.tx_data_size_limit, v[0]);
            set(&mut l.tx_kv_updates_limit, v[1]);
            set(&mut l.tx_compute_gas_limit, v[2]);
            set(&mut l.tx_state_growth_limit, v[3]);
            set(&mut l.block_env_access_compute_gas_limit, v[4]);
            set(&mut l.oracle_access_compute_gas_limit, v[5]);
        }
        LimP::Rel { tx, mask, milli, off } => {
            let m = model_of(sc, no_limits());
            let mut db = sc.db();
            let mut u = Usage::default();
            let n = tx as usize % sc.txs.len().max(1);
            for t in sc.txs.iter().take(n + 1) {
                let g = resolve_gas(sc, &m, &db, t);
                let e = expect(&m, sc, &db, build_tx(t, &db, sc.basefee as u64, g));
                db.apply(&e.obs.state);
                u = e.obs.usage;
            }
            let f = |x: u64| ((x as u128 * milli as u128 / 1024) as i64 + off as i64).max(1) as u64;
            if mask & 1 != 0 {
                l.tx_data_size_limit = f(u.data);
            }
            if mask & 2 != 0 {
                l.tx_kv_updates_limit = f(u.kv);
            }
            if mask & 4 != 0 {
                l.tx_compute_gas_limit = f(u.compute);
            }
            if mask & 8 != 0 {
                l.tx_state_growth_limit = f(u.growth);
            }
            if mask & 16 != 0 {
                l.block_env_access_compute_gas_limit = f(u.compute);
            }
            if mask & 32 != 0 {
                l.oracle_access_compute_gas_limit = f(u.compute);
            }
        }
    }
    l
}

#[derive(Clone, Debug, Default)]
pub struct RunStats {
    /// Stopped at a transaction that is too long to judge.
    pub heavy: bool,
    pub txs: Vec<TxStat>,
}
#[derive(Clone, Debug)]
pub struct TxStat {
    pub kind: String,
    pub output: Bytes,
    pub facts: Facts,
    pub usage: Usage,
    pub over: Option<Over>,
    pub gas: u64,
    pub gas_used: u64,
}

impl RunStats {
    pub fn tags(&self, out: &mut BTreeMap<String, u64>) {
        if self.heavy {
            *out.entry("not judged: too long".into()).or_default() += 1;
        }
        for t in &self.txs {
            let k = t.kind.split(['(', '{', ' ']).collect::<Vec<_>>();
            let mut key: String = k[0].to_string();
            if key == "halt" {
                key = t.kind.split('{').next().unwrap_or("").to_string();
            }
            if key == "error" {
                key = t.kind.chars().take(50).collect();
            }
            *out.entry(format!("result:{key}")).or_default() += 1;
            let mut tag = |c: bool, s: &str| {
                if c {
                    *out.entry(format!("hit:{s}")).or_default() += 1;
                }
            };
            let f = &t.facts;
            tag(f.storage_charges > 0, "storage-charge");
            tag(f.scaled_charges > 0, "scaled-charge");
            tag(f.frames > 1, "nested-frames");
            tag(f.child_failed > 0, "failed-frame");
            tag(f.max_depth > 3, "depth>3");
            tag(f.volatile, "volatile");
            tag(f.oracle, "oracle-mark");
            tag(f.capped > 0, "gas-forward-capped");
            tag(f.logs > 0, "logs");
            tag(f.creates > 0, "create-frames");
            tag(f.deployed > 0, "deployed");
            tag(f.precompiles > 0, "precompile");
            tag(f.sstores > 0, "sstore");
            tag(f.oracle_sloads > 0, "oracle-sload");
            tag(f.selfdestructs > 0, "selfdestruct");
            tag(f.rolled_back, "late-rollback");
            tag(t.usage.growth > 0, "growth");
        }
    }
}

/// Selector of `InternalError(string)`: the text of an internal error is not compared.
const INTERNAL: [u8; 4] = <crate::model::InternalError as alloy_sol_types::SolError>::SELECTOR;

pub fn cmp_obs(e: &Obs, g: &Obs) -> Option<Mismatch> {
    cmp_with(e, g, true)
}

/// As `cmp_obs` against the reference: which of an instruction's charges gas runs out at (its
/// storage gas, memory, base cost) is not specified, except under the equivalence spec.
pub fn cmp_ref(e: &Obs, g: &Obs, strict: bool) -> Option<Mismatch> {
    cmp_with(e, g, strict)
}

fn cmp_with(e: &Obs, g: &Obs, strict: bool) -> Option<Mismatch> {
    const OOG: &str = "halt(Base(Base(OutOfGas(";
    match (&e.res, &g.res) {
        (Ok(a), Ok(b)) => {
            if a.kind != b.kind && (strict || !a.kind.starts_with(OOG) || !b.kind.starts_with(OOG)) {
                return Some(mism("result", format!("expected {}, got {}", a.kind, b.kind)));
            }
            if a.gas_used != b.gas_used {
                return Some(mism("gas_used", format!("expected {}, got {} ({})", a.gas_used, b.gas_used, a.kind)));
            }
            if a.refunded != b.refunded {
                return Some(mism("refund", format!("expected {}, got {}", a.refunded, b.refunded)));
            }
            let same_output = a.output == b.output
                || (a.output.starts_with(&INTERNAL) && b.output.starts_with(&INTERNAL));
            if !same_output || a.created != b.created {
                return Some(mism("output", format!("expected {} {:?}, got {} {:?}", a.output, a.created, b.output, b.created)));
            }
            if a.logs != b.logs {
                return Some(mism("logs", format!("expected {:?}, got {:?}", a.logs, b.logs)));
            }
        }
        (Err(a), Err(b)) => {
            if a != b {
                return Some(mism("error", format!("expected {a}, got {b}")));
            }
        }
        (a, b) => {
            return Some(mism("accept", format!("expected {a:?}, got {b:?}")));
        }
    }
    if e.res.is_ok() {
        if e.usage != g.usage {
            return Some(mism("usage", format!("expected {:?}, got {:?}", e.usage, g.usage)));
        }
        if let Some(o) = &g.odd {
            return Some(mism("accessor", o.clone()));
        }
        if e.volatile != g.volatile {
            return Some(mism("volatile", format!("expected {:b}, got {:b}", e.volatile, g.volatile)));
        }
        if e.hints != g.hints {
            return Some(mism("hints", format!("expected {:?}, got {:?}", e.hints, g.hints)));
        }
        if e.buckets != g.buckets {
            return Some(mism("buckets", format!("expected {:?}, got {:?}", e.buckets, g.buckets)));
        }
    }
    None
}

/// What holds for every transaction whatever the model says: an executed one uses up its sender's
/// nonce; a failed one changes nothing but its sender, its fee's recipients and its authorities; a
/// rejected one changes nothing.
pub fn laws(sc: &Scenario, tx: &MegaTransaction, g: &Obs, before: &MemDb, after: &MemDb) -> Option<Mismatch> {
    let from = tx.base.caller;
    let acc = |d: &MemDb, a: &Address| d.accounts.get(a).cloned().unwrap_or_default();
    let Ok(r) = &g.res else {
        return state_diff(before, after).map(|d| mism("rejected", format!("a rejected transaction changes {d}")));
    };
    let (x, y) = (acc(before, &from), acc(after, &from));
    if y.nonce <= x.nonce && x.nonce != u64::MAX {
        return Some(mism("nonce", format!("the sender's nonce goes from {} to {}", x.nonce, y.nonce)));
    }
    if r.kind.starts_with("success") {
        return None;
    }
    if y.balance > x.balance + U256::from(tx.deposit.mint.unwrap_or_default()) && from != sc.block().beneficiary {
        return Some(mism("failed", format!("the sender of a failed transaction gains: {} to {}", x.balance, y.balance)));
    }
    let mut may: Vec<Address> = vec![from, sc.block().beneficiary];
    may.extend([
        op_revm::constants::BASE_FEE_RECIPIENT,
        op_revm::constants::L1_FEE_RECIPIENT,
        op_revm::constants::OPERATOR_FEE_RECIPIENT,
    ]);
    let auth: Vec<Address> = tx.base.authorization_list.iter().filter_map(|a| {
        use revm::context::transaction::AuthorizationTr;
        a.authority()
    }).collect();
    let all: std::collections::BTreeSet<Address> = before.accounts.keys().chain(after.accounts.keys()).copied().collect();
    for a in all {
        let (x, y) = (acc(before, &a), acc(after, &a));
        let code = auth.contains(&a);
        if x.storage != y.storage
            || (x.code != y.code && !code)
            || (x.nonce != y.nonce && !code && a != from)
            || (x.balance != y.balance && !may.contains(&a))
        {
            return Some(mism("failed", format!("a failed transaction changes {a}: {x:?} to {y:?}")));
        }
    }
    None
}

/// Runs the scenario on both and compares every observable after every transaction.
pub fn diff(sc: &Scenario) -> Result<RunStats, Mismatch> {
    let limits = resolve_limits(sc);
    let m = model_of(sc, limits);
    let orc = Orc { values: Rc::new(sc.oracle_values()), ..Default::default() };
    let mut db = sc.db();
    let equiv = rank(sc.spec()) == 0;
    let mut evm = new_evm(
        db.detach(),
        sc.block(),
        cfg_of(sc.spec()),
        if matches!(sc.lim, LimP::Default) { None } else { Some(limits) },
        salt_of(sc),
        orc.clone(),
    );
    let mut st = RunStats::default();
    for (i, t) in sc.txs.iter().enumerate() {
        let gas = resolve_gas(sc, &m, &db, t);
        let tx = build_tx(t, &db, sc.basefee as u64, gas);
        let mut e = expect(&m, sc, &db, tx.clone());
        if e.facts.steps > STEP_CAP {
            st.heavy = true;
            return Ok(st);
        }
        let g = exec(&mut evm, &orc, tx.clone());
        if equiv {
            // nothing beyond the result and the state is promised
            e.obs.usage = g.usage.clone();
            e.obs.volatile = g.volatile;
        }
        let (ek, eg) = match &e.obs.res {
            Ok(r) => (r.kind.clone(), r.gas_used),
            Err(x) => (format!("error {x}"), 0),
        };
        if let Some(mut mm) = cmp_ref(&e.obs, &g, sc.spec == 0) {
            mm.detail = format!("tx {i}: {} [{}]", mm.detail, ek);
            return Err(mm);
        }
        let mut after = db.clone();
        after.apply(&e.obs.state);
        let mut got = db.clone();
        got.apply(&g.state);
        if let Some(d) = state_diff(&after, &got) {
            return Err(mism("state", format!("tx {i} [{ek}]: expected vs got: {d}")));
        }
        if let Some(mut mm) = laws(sc, &tx, &g, &db, &got) {
            mm.detail = format!("tx {i} [{ek}]: {}", mm.detail);
            return Err(mm);
        }
        {
            use revm::context::ContextTr;
            use revm::DatabaseCommit;
            evm.ctx.db_mut().commit(g.state);
        }
        db = after;
        st.txs.push(TxStat { kind: ek, output: g.res.map(|r| r.output).unwrap_or_default(), facts: e.facts, usage: e.obs.usage, over: e.over, gas, gas_used: eg });
    }
    Ok(st)
}
