//! Properties decided without the reference model: fault injection, isolation, representation
//! independence, inspectors, raw bytecode, conservation.
use crate::{diff::*, gen::*, mega::*, rng::Rng, runner::*, scen::*, world::*};
use mega_evm::EvmTxRuntimeLimits;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn tag(p: &mut Pass, k: &str) {
    *p.tags.entry(k.to_string()).or_default() += 1;
}

/// A scenario with gas limits and transaction limits made concrete.
pub struct Fixed {
    pub limits: Option<EvmTxRuntimeLimits>,
    pub gas: Vec<u64>,
}

/// Resolves relative gas and limits; `None` when some transaction is too long to judge.
pub fn fix(sc: &Scenario) -> Option<Fixed> {
    let limits = resolve_limits(sc);
    let m = model_of(sc, limits);
    let mut db = sc.db();
    let mut gas = vec![];
    for t in &sc.txs {
        let g = resolve_gas(sc, &m, &db, t);
        let e = expect(&m, sc, &db, build_tx(t, &db, sc.basefee as u64, g));
        if e.facts.steps > crate::model::STEP_CAP {
            return None;
        }
        db.apply(&e.obs.state);
        gas.push(g);
    }
    Some(Fixed { limits: if matches!(sc.lim, LimP::Default) { None } else { Some(limits) }, gas })
}

pub fn commit(evm: &mut Mega<revm::inspector::NoOpInspector>, o: &Obs) {
    use revm::{context::ContextTr, DatabaseCommit};
    evm.ctx.db_mut().commit(o.state.clone());
}

/// First difference between two observations of the same transaction, state compared over `db`.
pub fn same(db: &MemDb, a: &Obs, b: &Obs) -> Option<String> {
    if let Some(m) = cmp_obs(a, b) {
        return Some(format!("{}: {}", m.what, m.detail));
    }
    let mut x = db.clone();
    x.apply(&a.state);
    let mut y = db.clone();
    y.apply(&b.state);
    state_diff(&x, &y).map(|d| format!("state: {d}"))
}

// ---- C14: faults ---------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    pub sc: Scenario,
    /// Offset and stride of the fault points tried.
    pub start: u8,
}

pub struct Faults;

impl Prop for Faults {
    type In = FaultCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn gen(&self, r: &mut Rng) -> FaultCase {
        let mut p = Profile { specs: [1, 3, 3, 2, 3, 3, 1], ..Default::default() };
        p.lim = [6, 3, 0, 1];
        p.max_txs = r.range(1, 3);
        p.stmts = 5;
        p.w.loops = 1;
        p.w.heavy = 0;
        p.bad = 2;
        p.poor = 2;
        p.w.env = 4;
        let sc = G { r, p: &p }.scenario();
        FaultCase { sc, start: r.u8(30) }
    }
    fn check(&self, c: &FaultCase) -> Outcome {
        let sc = &c.sc;
        let mut pass = Pass::default();
        let Some(fx) = fix(sc) else { return Ok(pass) };
        let run_to = |n: usize| {
            // machine and database after the first n transactions
            let orc = Orc { values: Rc::new(sc.oracle_values()), ..Default::default() };
            let salt = salt_of(sc);
            let base = sc.db().detach();
            let (fail, failed, reads) = (base.fail_at.clone(), base.failed.clone(), base.reads.clone());
            let mut db = sc.db();
            let mut evm = new_evm(base, sc.block(), cfg_of(sc.spec()), fx.limits, salt.clone(), orc.clone());
            for (t, g) in sc.txs.iter().zip(&fx.gas).take(n) {
                let tx = build_tx(t, &db, sc.basefee as u64, *g);
                let o = exec(&mut evm, &orc, tx);
                commit(&mut evm, &o);
                db.apply(&o.state);
            }
            (evm, db, orc, salt, fail, failed, reads)
        };
        for (i, t) in sc.txs.iter().enumerate() {
            let (mut evm, db, orc, salt, _, _, reads) = run_to(i);
            let tx = build_tx(t, &db, sc.basefee as u64, fx.gas[i]);
            let r0 = reads.get();
            let s0 = salt.queries.borrow().len() as u64;
            let good = exec(&mut evm, &orc, tx.clone());
            let n_db = reads.get() - r0;
            let n_salt = salt.queries.borrow().len() as u64 - s0;
            let all = n_db + n_salt;
            if all == 0 {
                continue;
            }
            let stride = (all / 24).max(1);
            let mut k = c.start as u64 % stride;
            while k < all {
                let (mut evm, _, orc, salt, fail, failed, _) = run_to(i);
                if k < n_db {
                    fail.set(Some(k));
                } else {
                    salt.fail_at.set(Some(k - n_db));
                }
                let bad = exec(&mut evm, &orc, tx.clone());
                fail.set(None);
                let hit = failed.get() || salt.failed.get();
                salt.fail_at.set(None);
                if hit {
                    pass.evals += 1;
                    pass.nontrivial = true;
                    let which = if k < n_db { "database" } else { "bucket" };
                    match &bad.res {
                        Ok(r) => {
                            return Err(Fail::new(
                                format!("{which} failure swallowed"),
                                format!("tx {i}, {which} read {k} failed, yet the result is {r:?}; without the failure {:?}", good.res),
                            ))
                        }
                        Err(e) if e.starts_with("Transaction(") => {
                            return Err(Fail::new(
                                format!("{which} failure blamed on the transaction"),
                                format!("tx {i}, read {k}: {e}"),
                            ))
                        }
                        Err(_) => {}
                    }
                    tag(&mut pass, &format!("fault:{which}"));
                    // before REX1 a compute limit lowered by a volatile read stays lowered on the
                    // machine, whatever became of the transaction that did the read
                    if !sc.spec().is_enabled(mega_evm::MegaSpecId::REX1) {
                        k += stride;
                        continue;
                    }
                    let again = exec(&mut evm, &orc, tx.clone());
                    if let Some(d) = same(&db, &good, &again) {
                        return Err(Fail::new(
                            "failure leaves a trace",
                            format!("tx {i}: after a failed {which} read {k} the same transaction gives a different outcome: {d}"),
                        ));
                    }
                }
                k += stride;
            }
        }
        Ok(pass)
    }
    fn budget(&self) -> (u64, u64) {
        (35_000, 500_000)
    }
    fn rule(&self) -> &'static str {
        "Random worlds and 1-3 transactions; for each transaction up to 24 of its database and bucket-capacity reads (evenly spaced, random offset) are made to fail in turn. Each time the transaction must return an error that is not a verdict on the transaction, without panicking, and the same transaction retried on the same machine must (from REX1 on; before, a lowered compute limit outlives its transaction) give exactly the outcome it has without the failure. Non-trivial: at least one injected failure was actually met."
    }
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(Faults)]
}
