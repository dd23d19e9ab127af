//! The properties decided with the reference-model differential.
use crate::{diff::*, gen::*, rng::Rng, runner::*, scen::*, world::*};

pub struct DiffProp {
    pub id: &'static str,
    pub profile: fn(&mut Rng) -> Profile,
    pub nontrivial: fn(&Scenario, &RunStats) -> bool,
    pub rule: &'static str,
    pub budget: (u64, u64),
}

pub fn run_diff(sc: &Scenario, nontrivial: fn(&Scenario, &RunStats) -> bool) -> Outcome {
    match diff(sc) {
        Ok(st) => {
            let mut p = Pass { nontrivial: nontrivial(sc, &st), evals: (st.txs.len() as u64).saturating_sub(1), ..Default::default() };
            st.tags(&mut p.tags);
            *p.tags.entry(format!("spec:{:?}", sc.spec())).or_default() += 1;
            Ok(p)
        }
        Err(m) => Err(Fail::new(format!("{} differs", m.what), m.detail)),
    }
}

impl Prop for DiffProp {
    type In = Scenario;
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng) -> Scenario {
        let p = (self.profile)(r);
        G { r, p: &p }.scenario()
    }
    fn check(&self, i: &Scenario) -> Outcome {
        run_diff(i, self.nontrivial)
    }
    fn budget(&self) -> (u64, u64) {
        self.budget
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
}

fn base() -> Profile {
    Profile::default()
}

/// The differential properties: one full-observation oracle, generators aimed at each promise.
pub fn diff_props() -> Vec<DiffProp> {
    vec![
        DiffProp {
            id: "C01",
            profile: |r| {
                let mut p = base();
                p.specs = [1, 0, 0, 0, 0, 0, 0];
                // limits, buckets and oracle values are configured but must have no effect
                p.lim = [3, 1, 4, 1];
                p.expanded = 60;
                p.system = 3;
                p.bad = 8;
                p.raw_code = 6;
                p.w.selfdestruct = 3;
                p.w.env = 5;
                p.w.precompile = 4;
                p.max_txs = r.range(1, 4);
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.steps > 3 || t.kind.starts_with("error")),
            rule: "Random worlds (up to 15 accounts: EOAs, contracts compiled from random statement programs, EIP-7702 delegations, a contract at the oracle address), 1-4 random transactions of every type under the equivalence spec with mega limits, expanded buckets and oracle values configured; every observable compared with plain op-revm Isthmus. Non-trivial: some transaction executes more than three instructions or is rejected.",
            budget: (300_000, 6_000_000),
        },
        DiffProp {
            id: "C02",
            profile: |_| {
                let mut p = base();
                p.lim = [4, 4, 0, 1];
                p.expanded = 45;
                p.w.sstore = 16;
                p.w.log = 8;
                p.w.create = 8;
                p.w.create_raw = 2;
                p.w.call_value = 50;
                p.w.gas = 4;
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.storage_charges > 0),
            rule: "Random worlds and transactions whose programs store, log, create, self-destruct and send value, mostly without tight limits; gas used, refund, compute gas, result, state, logs compared with a reference that charges the documented storage gas on top of op-revm. Non-trivial: at least one storage-gas charge happens during execution.",
            budget: (300_000, 6_000_000),
        },
        DiffProp {
            id: "C03",
            profile: |_| {
                let mut p = base();
                p.lim = [4, 4, 0, 1];
                p.expanded = 95;
                p.w.sstore = 16;
                p.w.create = 8;
                p.w.call_value = 60;
                p.value = 50;
                p.max_txs = 4;
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.scaled_charges > 0),
            rule: "As C02 with random bucket capacities (multiples and non-multiples of the minimum) in nearly every world; charges and the set of reported buckets compared with the reference. Non-trivial: a charge was made for a bucket above the minimum capacity.",
            budget: (300_000, 6_000_000),
        },
        DiffProp {
            id: "C04",
            profile: |r| {
                let mut p = base();
                p.specs = [1, 4, 4, 2, 3, 3, 1];
                p.lim = [5, 2, 1, 2];
                p.gas = [2, 3, 6];
                p.ty = [4, 3, 3, 4, 3];
                p.calldata = 80;
                p.create_tx = 30;
                p.value = 45;
                p.bad = 15;
                p.poor = 15;
                p.stmts = r.range(1, 4);
                p
            },
            nontrivial: |sc, s| {
                s.txs.iter().zip(&sc.txs).any(|(t, p)| {
                    !matches!(&p.input, Inp::Data(d) if d.is_empty())
                        || !p.acl.is_empty()
                        || t.kind.starts_with("error")
                        || t.gas.abs_diff(t.facts.initial) < 2000
                })
            },
            rule: "Transactions with calldata, access lists, authorization lists, contract creations and value transfers to empty accounts, with gas limits around the initial charge, the floor and the need; acceptance, error, gas used and state compared with the reference. Non-trivial: some transaction has calldata or an access list, is rejected, or has a gas limit within 2000 of its initial charge.",
            budget: (240_000, 6_000_000),
        },
        DiffProp {
            id: "C05",
            profile: |_| {
                let mut p = base();
                p.lim = [3, 5, 0, 1];
                p.w.call = 14;
                p.w.create = 8;
                p.w.term = 4;
                p.w.call_value = 45;
                p.w.sstore = 14;
                p.w.log = 6;
                p.w.selfdestruct = 2;
                p.w.loops = 4;
                p.value = 40;
                p.ty = [5, 1, 2, 5, 3];
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.frames > 1 && t.usage.kv > 2),
            rule: "Programs with nested calls, creations, value transfers, repeated and restored storage writes, logs and failing frames; the four reported usages and everything else compared with the reference. Non-trivial: a transaction with nested frames and more than two counted key-value updates.",
            budget: (300_000, 6_000_000),
        },
        DiffProp {
            id: "C06",
            profile: |r| {
                let mut p = base();
                p.lim = [1, 0, 3, 8];
                p.lim_mask = if r.pct(40) { 0x0f } else { 1 << r.below(4) };
                p.w.call = 14;
                p.w.create = 8;
                p.w.call_value = 45;
                p.w.precompile = 4;
                p.value = 40;
                p.gas = [8, 1, 1];
                p.create_tx = 25;
                p.bad = 1;
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.over.is_some()),
            rule: "Worlds whose transaction limits are placed at, just below, just above or at a random fraction of what a first pass of the reference says a transaction uses in one or more dimensions (or at small absolute values). Non-trivial: some transaction exceeds a limit, so result, reason, gas given back and undone state are all compared.",
            budget: (300_000, 6_000_000),
        },
        DiffProp {
            id: "C07",
            profile: |r| {
                let mut p = base();
                p.lim = [2, 1, 2, 3];
                p.gas = [3, 5, 3];
                p.w.term = 8;
                p.w.call = 14;
                p.w.call_value = 55;
                p.w.create = 8;
                p.w.selfdestruct = 2;
                p.w.precompile = 4;
                p.w.log = 6;
                p.value = 60;
                p.create_tx = 25;
                p.stmts = r.range(3, 7);
                p.bad = 1;
                p
            },
            nontrivial: |_, s| {
                s.txs.iter().any(|t| (t.facts.steps > 2 || t.facts.creates > 0) && !t.kind.starts_with("success") && !t.kind.starts_with("error"))
            },
            rule: "Transactions that store, transfer, create and log before failing (revert, halt, out of gas at a random point, limit exceeded at a random point), with value, in every frame shape. Non-trivial: a transaction fails after executing something.",
            budget: (300_000, 6_000_000),
        },
        DiffProp {
            id: "C08",
            profile: |r| {
                let mut p = base();
                p.specs = [0, 3, 3, 4, 3, 5, 2];
                p.lim = [2, 0, 3, 6];
                p.lim_mask = r.pick(&[0x10, 0x20, 0x30, 0x34, 0x14, 0x24]);
                p.w.env = 12;
                p.w.acct = 8;
                p.w.oracle = 10;
                p.w.loops = 5;
                p.w.heavy = 5;
                p.w.term = 1;
                p.odd_coinbase = 25;
                p.system = 8;
                p.gas = [8, 1, 1];
                p.max_txs = 4;
                p.bad = 1;
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.volatile || t.facts.oracle),
            rule: "Programs that read block environment, beneficiary and oracle data at random points between heavy computation, with detention caps placed around what the transaction computes; several transactions per machine. Non-trivial: a transaction touches volatile data.",
            budget: (180_000, 6_000_000),
        },
        DiffProp {
            id: "C09",
            profile: |r| {
                let mut p = base();
                p.lim = [3, 4, 0, 1];
                p.gas = [2, 4, 3];
                p.w.call = 24;
                p.w.create = 10;
                p.w.gas = 10;
                p.w.call_value = 45;
                p.w.heavy = 3;
                p.stmts = r.range(2, 6);
                p.bad = 1;
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.capped > 0),
            rule: "Programs with nested calls and creations that request all, more than available, or little gas, callees that record the gas they see, and gas limits near what is needed. Non-trivial: a forward was capped to 98/100.",
            budget: (300_000, 6_000_000),
        },
        DiffProp {
            id: "C15",
            profile: |_| {
                let mut p = base();
                p.specs = [1, 2, 2, 2, 5, 6, 3];
                p.w.oracle = 30;
                p.w.sload = 6;
                p.system = 12;
                p.lim = [3, 3, 1, 2];
                p.lim_mask = 0x24;
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.oracle_sloads > 0 || t.facts.oracle),
            rule: "Worlds with a contract at the oracle address, oracle values for some slots, transactions and contracts that call it (all call kinds, hint payloads well and badly encoded) and read its slots; values, gas, hints, usage compared with the reference. Non-trivial: an oracle slot is read or the oracle is called.",
            budget: (180_000, 6_000_000),
        },
        DiffProp {
            id: "C16",
            profile: |_| {
                let mut p = base();
                p.specs = [1, 3, 3, 2, 3, 3, 1];
                p.system = 70;
                p.w.oracle = 8;
                p.bad = 8;
                p.value = 20;
                p.max_txs = 4;
                p
            },
            nontrivial: |sc, _| sc.txs.iter().any(|t| t.caller == Ref::System),
            rule: "Histories mixing ordinary transactions with transactions from the system address, to the oracle and elsewhere, with balances, fees and nonces of every kind. Non-trivial: a transaction comes from the system address.",
            budget: (180_000, 6_000_000),
        },
        DiffProp {
            id: "C17",
            profile: |r| {
                let mut p = base();
                p.specs = [1, 3, 3, 2, 4, 3, 1];
                p.lim = [5, 4, 0, 1];
                match r.weighted(&[10, 10, 9, 1]) {
                    0 => {
                        p.w.selfdestruct = 12;
                        p.w.create = 12;
                    }
                    1 => {
                        p.w.precompile = 25;
                        p.gas = [4, 4, 3];
                    }
                    2 => {
                        p.w.create = 12;
                        p.w.create_raw = 12;
                        p.create_tx = 50;
                        p.w.big = 20;
                    }
                    _ => {
                        p.huge = 50;
                        p.stmts = 3;
                        p.w.create = 12;
                        p.w.create_raw = 8;
                        p.w.loops = 0;
                        p.w.call = 4;
                        p.gas = [1, 0, 0];
                        p.create_tx = 50;
                    }
                }
                p
            },
            nontrivial: |_, s| s.txs.iter().any(|t| t.facts.selfdestructs > 0 || t.facts.precompiles > 0 || t.facts.creates > 0),
            rule: "Programs that self-destruct (in existing and freshly created contracts, to self, to empty accounts), create contracts with code and initcode around the size limits, and call precompiles (well-formed and random inputs), under every spec. Non-trivial: a self-destruct, a creation or a precompile call.",
            budget: (180_000, 6_000_000),
        },
    ]
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    let mut v: Vec<Box<dyn AnyProp>> = vec![];
    for p in diff_props() {
        v.push(Box::new(p));
    }
    v.push(Box::new(DiffProp {
        id: "C00",
        profile: |_| Profile::default(),
        nontrivial: |_, s| s.txs.iter().any(|t| t.facts.frames > 0),
        rule: "",
        budget: (20_000, 1_000_000),
    }));
    v
}
