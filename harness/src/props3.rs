//! Isolation, inspectors, ways of building and driving the machine, raw bytecode.
use crate::{diff::*, gen::*, mega::*, props::run_diff, props2::*, rng::Rng, runner::*, scen::*, world::*};
use alloy_primitives::{keccak256, Address, Bytes, TxKind, U256};
use mega_evm::{
    EvmTxRuntimeLimits, ExternalEnvFactory, ExternalEnvs, MegaContext, MegaEvm, MegaEvmFactory, MegaSpecId,
    MegaTransaction,
};
use op_revm::L1BlockInfo;
use revm::{
    context::{BlockEnv, ContextTr},
    interpreter::{
        interpreter::EthInterpreter,
        interpreter_types::Jumps,
        CallInputs, CallOutcome, CreateInputs, CreateOutcome, Gas, InstructionResult, Interpreter,
        InterpreterResult,
    },
    primitives::Log,
    DatabaseCommit, ExecuteCommitEvm, ExecuteEvm, InspectCommitEvm, InspectEvm, Inspector,
};
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, rc::Rc};

// ---- C10: isolation ------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Noise {
    /// An unrelated transaction whose outcome is dropped.
    Tx(TxP),
    /// The next transaction itself, outcome dropped.
    Same,
    /// The next transaction with a failing database read.
    Fault(u8),
    /// A system call whose outcome is dropped.
    Sys(Ref, Ref),
    /// The next block starts: new number and time, other bucket capacities.
    Block(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IsoCase {
    pub sc: Scenario,
    /// (index of the transaction it comes before, what)
    pub noise: Vec<(u8, Noise)>,
}

pub struct Isolation;

fn rex1(sc: &Scenario) -> bool {
    sc.spec().is_enabled(MegaSpecId::REX1)
}

impl Prop for Isolation {
    type In = IsoCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn gen(&self, r: &mut Rng) -> IsoCase {
        let mut p = Profile { specs: [1, 1, 1, 3, 3, 4, 1], ..Default::default() };
        p.lim = [4, 2, 1, 4];
        p.max_txs = r.range(2, 4);
        p.bad = 8;
        p.stmts = 5;
        p.w.env = 5;
        p.w.oracle = 4;
        p.w.transient = 4;
        p.system = 4;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        g.some_keyless(&mut sc, 15);
        let n = g.r.range(1, 4);
        let noise = (0..n)
            .map(|_| {
                let at = g.r.u8(sc.txs.len() as u64);
                let what = match g.r.below(10) {
                    0..=3 => {
                        let mut t = g.tx(sc.spec);
                        if !matches!(t.gas, GasP::Abs(_)) {
                            t.gas = GasP::Abs(g.r.range(21_000, 3_000_000));
                        }
                        Noise::Tx(t)
                    }
                    4 => Noise::Same,
                    5..=6 => Noise::Fault(g.r.u8(40)),
                    7 => Noise::Sys(g.any_ref(), g.any_ref()),
                    _ => Noise::Block(g.r.u8(4)),
                };
                (at, what)
            })
            .collect();
        IsoCase { sc, noise }
    }
    fn check(&self, c: &IsoCase) -> Outcome {
        let sc = &c.sc;
        let mut pass = Pass::default();
        let Some(fx) = fix(sc) else { return Ok(pass) };
        let salt = salt_of(sc);
        let orc = Orc { values: Rc::new(sc.oracle_values()), ..Default::default() };
        let mut block = sc.block();
        let base = sc.db().detach();
        let fail = base.fail_at.clone();
        let mut db = sc.db();
        let mut evm = new_evm(base, block.clone(), cfg_of(sc.spec()), fx.limits, salt.clone(), orc.clone());
        for (i, t) in sc.txs.iter().enumerate() {
            let tx = build_tx(t, &db, sc.basefee as u64, fx.gas[i]);
            for (at, what) in &c.noise {
                if *at as usize != i {
                    continue;
                }
                let executed = match what {
                    Noise::Tx(t) => {
                        let GasP::Abs(g) = t.gas else { continue };
                        let o = exec(&mut evm, &orc, build_tx(t, &db, sc.basefee as u64, g.min(20_000_000_000)));
                        tag(&mut pass, if o.res.is_ok() { "noise:executed" } else { "noise:rejected" });
                        o.res.is_ok()
                    }
                    Noise::Same => {
                        exec(&mut evm, &orc, tx.clone());
                        tag(&mut pass, "noise:same");
                        true
                    }
                    Noise::Fault(k) => {
                        fail.set(Some(*k as u64));
                        exec(&mut evm, &orc, tx.clone());
                        fail.set(None);
                        tag(&mut pass, "noise:fault");
                        true
                    }
                    Noise::Sys(a, b) => {
                        let _ = alloy_evm::Evm::transact_system_call(&mut evm, addr(*a), addr(*b), Bytes::from(vec![1, 2, 3]));
                        tag(&mut pass, "noise:system-call");
                        true
                    }
                    Noise::Block(k) => {
                        block.number += U256::from(1);
                        block.timestamp += U256::from(*k);
                        let caps = (0..N_BUCKETS as u64).map(|b| 256 * (1 + (b + *k as u64) % 3)).collect();
                        *salt.caps.borrow_mut() = caps;
                        evm.set_block(block.clone());
                        tag(&mut pass, "noise:block");
                        false
                    }
                };
                pass.nontrivial = true;
                if executed && !rex1(sc) {
                    // a lowered compute limit outlives its transaction before REX1
                    return Ok(pass);
                }
            }
            let got = exec(&mut evm, &orc, tx.clone());
            // before REX1 the machine's history matters, and C08 compares it with the reference
            if rex1(sc) || i == 0 {
                let fresh_orc = Orc { values: orc.values.clone(), ..Default::default() };
                let fresh_salt = Salt { caps: salt.caps.clone(), ..Default::default() };
                let mut fresh = new_evm(db.detach(), block.clone(), cfg_of(sc.spec()), fx.limits, fresh_salt, fresh_orc.clone());
                let mut want = exec(&mut fresh, &fresh_orc, tx);
                pass.evals += 1;
                if !want.buckets.iter().all(|b| got.buckets.contains(b)) {
                    return Err(Fail::new("bucket not reported", format!("tx {i}: {:?} vs {:?}", want.buckets, got.buckets)));
                }
                want.buckets = got.buckets.clone();
                if let Some(d) = same(&db, &want, &got) {
                    return Err(Fail::new("history leaks", format!("tx {i}: fresh machine vs used machine: {d}")));
                }
            }
            commit(&mut evm, &got);
            db.apply(&got.state);
        }
        if !c.noise.is_empty() {
            tag(&mut pass, &format!("spec:{:?}", sc.spec()));
        }
        Ok(pass)
    }
    fn budget(&self) -> (u64, u64) {
        (160_000, 3_000_000)
    }
    fn rule(&self) -> &'static str {
        "Random worlds and 2-4 transactions on one machine, with disturbances in between: other transactions executed and dropped, rejected transactions, the same transaction run twice, database failures, system calls, a new block with other bucket capacities. Every transaction must have exactly the outcome it has on a fresh machine over the same committed state. Non-trivial: a disturbance took place."
    }
}

// ---- C11: inspectors -----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Init,
    Step { pc: usize, op: u8, gas: u64, stack: u64, mem: usize },
    StepEnd { pc: usize },
    Log(Log),
    Call { to: Address, code: Address, caller: Address, gas: u64, input: Bytes, value: U256, stat: bool },
    CallEnd { ok: bool, gas: u64, spent_ok: bool, out: Bytes },
    Create { caller: Address, gas: u64, value: U256, init: u64 },
    CreateEnd { ok: bool, gas: u64, spent_ok: bool, at: Option<Address>, out: Bytes },
    SelfDestruct(Address, Address, U256),
}

/// Records everything an inspector gets to see.
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub ev: Rc<RefCell<Vec<Ev>>>,
    pub steps: u64,
    /// Calls to this address are answered by the inspector.
    pub answer: Option<(Address, bool)>,
    /// Spends the gas of failed frames, as the gas inspector of revm's tracers does.
    pub spend: bool,
}
const EV_CAP: usize = 40_000;
impl Rec {
    fn put(&self, e: Ev) {
        let mut v = self.ev.borrow_mut();
        if v.len() < EV_CAP {
            v.push(e);
        }
    }
}
impl<CTX: ContextTr> Inspector<CTX, EthInterpreter> for Rec {
    fn initialize_interp(&mut self, _: &mut Interpreter<EthInterpreter>, _: &mut CTX) {
        self.put(Ev::Init)
    }
    fn step(&mut self, i: &mut Interpreter<EthInterpreter>, _: &mut CTX) {
        let mut h = 0xcbf29ce484222325u64;
        for w in i.stack.data() {
            for l in w.as_limbs() {
                h = (h ^ l).wrapping_mul(0x100000001b3);
            }
        }
        self.put(Ev::Step {
            pc: i.bytecode.pc(),
            op: i.bytecode.opcode(),
            gas: i.gas.remaining(),
            stack: h,
            mem: i.memory.len(),
        })
    }
    fn step_end(&mut self, i: &mut Interpreter<EthInterpreter>, _: &mut CTX) {
        self.put(Ev::StepEnd { pc: i.bytecode.pc() })
    }
    fn log(&mut self, _: &mut Interpreter<EthInterpreter>, _: &mut CTX, l: Log) {
        self.put(Ev::Log(l))
    }
    fn call(&mut self, ctx: &mut CTX, c: &mut CallInputs) -> Option<CallOutcome> {
        self.put(Ev::Call {
            to: c.target_address,
            code: c.bytecode_address,
            caller: c.caller,
            gas: c.gas_limit,
            input: c.input.bytes(ctx),
            value: c.value.get(),
            stat: c.is_static,
        });
        match self.answer {
            Some((a, ok)) if a == c.bytecode_address => Some(CallOutcome {
                result: InterpreterResult {
                    result: if ok { InstructionResult::Return } else { InstructionResult::Revert },
                    output: Bytes::from_static(b"answer"),
                    gas: Gas::new(c.gas_limit),
                },
                memory_offset: c.return_memory_offset.clone(),
            }),
            _ => None,
        }
    }
    fn call_end(&mut self, _: &mut CTX, c: &CallInputs, o: &mut CallOutcome) {
        self.put(Ev::CallEnd {
            ok: o.result.result.is_ok(),
            gas: o.result.gas.remaining(),
            spent_ok: o.result.gas.remaining() <= c.gas_limit,
            out: o.result.output.clone(),
        });
        if self.spend {
            revm::inspector::inspectors::GasInspector::new().call_end(o);
        }
    }
    fn create(&mut self, _: &mut CTX, c: &mut CreateInputs) -> Option<CreateOutcome> {
        self.put(Ev::Create {
            caller: c.caller,
            gas: c.gas_limit,
            value: c.value,
            init: u64::from_be_bytes(keccak256(&c.init_code)[..8].try_into().unwrap()),
        });
        None
    }
    fn create_end(&mut self, _: &mut CTX, c: &CreateInputs, o: &mut CreateOutcome) {
        self.put(Ev::CreateEnd {
            ok: o.result.result.is_ok(),
            gas: o.result.gas.remaining(),
            spent_ok: o.result.gas.remaining() <= c.gas_limit,
            at: o.address,
            out: o.result.output.clone(),
        });
        if self.spend {
            revm::inspector::inspectors::GasInspector::new().create_end(o);
        }
    }
    fn selfdestruct(&mut self, a: Address, b: Address, v: U256) {
        self.put(Ev::SelfDestruct(a, b, v))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InspCase {
    pub sc: Scenario,
    /// When set, a second run has the inspector answer calls to this address itself.
    pub answer: Option<(Ref, bool)>,
    /// The inspector spends the gas of failed frames.
    #[serde(default)]
    pub spend: bool,
}

pub struct Inspectors;

/// Structure every trace must have: balanced frames, one end per step, sane gas.
fn well_formed(ev: &[Ev], o: &Obs) -> Result<(), String> {
    if ev.len() >= EV_CAP {
        return Ok(());
    }
    let mut stack: Vec<(bool, usize)> = vec![];
    let mut open_step = 0i64;
    let mut logs: Vec<Vec<Log>> = vec![vec![]];
    let mut last_ok = None;
    for (k, e) in ev.iter().enumerate() {
        match e {
            Ev::Call { .. } => {
                stack.push((false, k));
                logs.push(vec![]);
            }
            Ev::Create { .. } => {
                stack.push((true, k));
                logs.push(vec![]);
            }
            Ev::CallEnd { ok, spent_ok, .. } | Ev::CreateEnd { ok, spent_ok, .. } => {
                let create = matches!(e, Ev::CreateEnd { .. });
                match stack.pop() {
                    Some((c, _)) if c == create => {}
                    x => return Err(format!("event {k}: end of a frame that was not open ({x:?})")),
                }
                if !spent_ok {
                    return Err(format!("event {k}: frame returns more gas than it got"));
                }
                let l = logs.pop().unwrap();
                if *ok {
                    logs.last_mut().unwrap().extend(l);
                }
                last_ok = Some(*ok);
            }
            Ev::Step { .. } => open_step += 1,
            Ev::StepEnd { .. } => open_step -= 1,
            Ev::Log(l) => logs.last_mut().unwrap().push(l.clone()),
            _ => {}
        }
        if !(0..=1).contains(&open_step) {
            return Err(format!("event {k}: steps and step ends do not alternate"));
        }
    }
    if !stack.is_empty() || open_step != 0 {
        return Err("trace ends inside a frame or step".into());
    }
    if let (Ok(r), Some(ok)) = (&o.res, last_ok) {
        if ok != r.kind.starts_with("success") {
            return Err(format!("outermost frame seen to end with success={ok}, transaction says {}", r.kind));
        }
        if ok && logs[0] != r.logs {
            return Err(format!("logs of the surviving frames {:?}, of the transaction {:?}", logs[0], r.logs));
        }
    }
    Ok(())
}

impl Prop for Inspectors {
    type In = InspCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn gen(&self, r: &mut Rng) -> InspCase {
        let mut p = Profile { specs: [3, 2, 2, 1, 3, 4, 1], ..Default::default() };
        p.lim = [3, 1, 1, 4];
        p.gas = [4, 3, 3];
        p.max_txs = r.range(1, 3);
        p.w.loops = 1;
        p.w.oracle = 4;
        p.w.env = 4;
        p.system = 4;
        p.w.selfdestruct = 3;
        p.w.create = 8;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        g.some_keyless(&mut sc, 15);
        let answer = if g.r.pct(30) { Some((if g.r.pct(70) { Ref::C(g.r.u8(4)) } else { g.any_ref() }, g.r.pct(50))) } else { None };
        InspCase { sc, answer, spend: g.r.pct(50) }
    }
    fn check(&self, c: &InspCase) -> Outcome {
        let sc = &c.sc;
        let mut pass = Pass::default();
        let Some(fx) = fix(sc) else { return Ok(pass) };
        let orc = || Orc { values: Rc::new(sc.oracle_values()), ..Default::default() };
        let (o1, o2) = (orc(), orc());
        let mk = |o: &Orc, db: &MemDb| new_evm(db.detach(), sc.block(), cfg_of(sc.spec()), fx.limits, salt_of(sc), o.clone());
        let mut db = sc.db();
        let mut plain = mk(&o1, &db);
        let rec = Rec { spend: c.spend, ..Default::default() };
        if c.spend {
            tag(&mut pass, "spends gas of failed frames");
        }
        let mut seen = mk(&o2, &db).with_inspector(rec.clone());
        for (i, t) in sc.txs.iter().enumerate() {
            let tx = build_tx(t, &db, sc.basefee as u64, fx.gas[i]);
            rec.ev.borrow_mut().clear();
            let a = exec(&mut plain, &o1, tx.clone());
            let b = exec(&mut seen, &o2, tx.clone());
            pass.evals += 1;
            if let Some(d) = same(&db, &a, &b) {
                return Err(Fail::new("inspector changes the outcome", format!("tx {i}: without vs with inspector: {d}")));
            }
            let ev = rec.ev.borrow().clone();
            if ev.iter().any(|e| matches!(e, Ev::Step { .. })) {
                pass.nontrivial = true;
            }
            tag(&mut pass, if ev.len() > 50 { "trace:long" } else { "trace:short" });
            let mut shown = b.clone();
            if tx.base.kind == TxKind::Call(KEYLESS) && sc.spec >= 4 {
                // what the deployment executes is not shown to the inspector, its logs are the transaction's
                if let Ok(r) = &mut shown.res {
                    r.logs.clear();
                }
                tag(&mut pass, "keyless");
            }
            if let Err(e) = well_formed(&ev, &shown) {
                return Err(Fail::new("malformed trace", format!("tx {i}: {e}")));
            }
            if sc.spec() == MegaSpecId::EQUIVALENCE {
                let r2 = Rec::default();
                op_trace(sc, &db, tx, r2.clone());
                let want = r2.ev.borrow();
                if let Some(k) = (0..want.len().max(ev.len())).find(|k| want.get(*k) != ev.get(*k)) {
                    return Err(Fail::new("trace differs from op-revm", format!("tx {i} event {k}: {:?} vs {:?}", want.get(k), ev.get(k))));
                }
                tag(&mut pass, "trace:compared with op-revm");
            }
            plain.ctx.db_mut().commit(a.state.clone());
            seen.ctx.db_mut().commit(b.state);
            db.apply(&a.state);
        }
        if let Some((a, ok)) = c.answer {
            // an inspector that answers calls itself: frames stay balanced and nothing panics
            let db = sc.db();
            let o3 = orc();
            let rec = Rec { answer: Some((addr(a), ok)), spend: c.spend, ..Default::default() };
            let mut evm = mk(&o3, &db).with_inspector(rec.clone());
            let mut db = db;
            for (i, t) in sc.txs.iter().enumerate() {
                let tx = build_tx(t, &db, sc.basefee as u64, fx.gas[i]);
                rec.ev.borrow_mut().clear();
                let o = exec(&mut evm, &o3, tx);
                let ev = rec.ev.borrow().clone();
                if ev.iter().any(|e| matches!(e, Ev::Call { code, .. } if *code == addr(a))) {
                    tag(&mut pass, "answered");
                }
                let no_result = Obs { res: Err(String::new()), ..o.clone() };
                if let Err(e) = well_formed(&ev, &no_result) {
                    return Err(Fail::new("malformed trace", format!("tx {i}, calls to {} answered: {e}", addr(a))));
                }
                evm.ctx.db_mut().commit(o.state.clone());
                db.apply(&o.state);
            }
        }
        Ok(pass)
    }
    fn budget(&self) -> (u64, u64) {
        (160_000, 3_000_000)
    }
    fn rule(&self) -> &'static str {
        "Random worlds and 1-3 transactions run without and with a recording inspector, which in half of the cases spends the gas of failed frames as revm's own tracers do: every observable must agree; the recorded events must form balanced frames and steps, frames must not return more gas than they got, and logs and success of the trace must be those of the transaction. Under the equivalence spec the whole event sequence (program counter, opcode, gas, stack hash, memory size, frames) must equal op-revm's. In some cases a second inspector answers calls itself. Non-trivial: at least one instruction was traced."
    }
}

fn op_trace(sc: &Scenario, db: &MemDb, tx: MegaTransaction, rec: Rec) {
    use op_revm::{DefaultOp, OpBuilder};
    let ctx = op_revm::OpContext::<revm::database::EmptyDB>::op()
        .with_db(db.detach())
        .with_block(sc.block())
        .with_cfg(crate::model::op_cfg(&cfg_of(sc.spec())))
        .with_chain(L1BlockInfo::default());
    let mut evm = ctx.build_op_with_inspector(rec);
    let _ = evm.inspect_one_tx(tx);
}

// ---- C12: arbitrary bytecode ---------------------------------------------------------------------

pub struct RawCode;

fn mutate(r: &mut Rng, mut v: Vec<u8>) -> Vec<u8> {
    const SMALL: [u8; 40] = [
        0x5f, 0x60, 0x01, 0x02, 0x03, 0x15, 0x16, 0x20, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x3d, 0x3e,
        0x40, 0x41, 0x42, 0x47, 0x50, 0x51, 0x52, 0x54, 0x55, 0x56, 0x57, 0x5a, 0x5b, 0x5c, 0x5d, 0x80, 0x90, 0xa0,
        0xa1, 0xf1, 0xf5, 0xfa,
    ];
    let n = r.log(6).max(1);
    for _ in 0..n {
        let len = v.len() as u64;
        match r.below(7) {
            0 if len > 0 => {
                let i = r.below(len) as usize;
                v[i] = r.next() as u8;
            }
            1 if len > 0 => {
                let i = r.below(len) as usize;
                v[i] = r.pick(&SMALL);
            }
            2 if len > 0 => {
                let i = r.below(len) as usize;
                v.remove(i);
            }
            3 => {
                let i = r.below(len + 1) as usize;
                v.insert(i, r.pick(&SMALL));
            }
            4 if len > 1 => {
                let a = r.below(len) as usize;
                let b = (a + r.log(60) as usize).min(v.len());
                let part = v[a..b].to_vec();
                let i = r.below(len) as usize;
                v.splice(i..i, part);
            }
            5 if len > 0 => {
                let a = r.below(len) as usize;
                v.truncate(a);
            }
            _ => {
                let k = r.range(1, 6);
                let i = r.below(len + 1) as usize;
                let mut ins = vec![];
                for _ in 0..k {
                    ins.push(0x60 + r.u8(3));
                    ins.extend(r.bytes(1));
                    ins.push(r.pick(&SMALL));
                }
                v.splice(i..i, ins);
            }
        }
    }
    v
}

impl Prop for RawCode {
    type In = Scenario;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn gen(&self, r: &mut Rng) -> Scenario {
        let mut p = Profile { specs: [1, 3, 3, 2, 3, 4, 2], ..Default::default() };
        p.lim = [4, 1, 1, 3];
        p.gas = [4, 3, 3];
        p.w.loops = 1;
        p.max_txs = 2;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        for a in &mut sc.accs {
            if let Code::Prog(_) = &a.code {
                if g.r.pct(85) {
                    let mut v = compile_code(&a.code).to_vec();
                    if g.r.pct(15) {
                        let n = g.r.log(80) as usize;
                        v = g.r.bytes(n);
                    }
                    a.code = Code::Raw(mutate(g.r, v));
                }
            }
        }
        for t in &mut sc.txs {
            if let To::Create(i) = &t.to {
                if g.r.pct(80) {
                    let v = compile_init(i).to_vec();
                    t.to = To::CreateRaw(mutate(g.r, v));
                }
            }
            if matches!(t.gas, GasP::Abs(_)) {
                let rate = if sc.spec == 1 { 30 } else { 2 };
                t.gas = GasP::Abs(60_000 + g.r.log(400_000) * rate);
            }
        }
        sc
    }
    fn check(&self, i: &Scenario) -> Outcome {
        run_diff(i, |_, s| s.txs.iter().any(|t| t.facts.steps > 3))
    }
    fn budget(&self) -> (u64, u64) {
        (320_000, 6_000_000)
    }
    fn rule(&self) -> &'static str {
        "Worlds whose contracts and init codes are mutations of compiled programs (byte flips, deletions, insertions, duplicated stretches, truncations) or random bytes, with bounded gas, run under every spec; nothing may panic, and every observable must equal the reference. Non-trivial: more than three instructions execute."
    }
}

// ---- C13: ways of building and driving -----------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RouteCase {
    pub sc: Scenario,
    /// Order of the builder calls.
    pub order: u8,
    pub route: u8,
    pub inline: bool,
    pub empties: bool,
    /// Switches of the configuration, see `flags`.
    #[serde(default)]
    pub flags: u32,
    /// Fees are not paid out (`disable_beneficiary`).
    #[serde(default)]
    pub unpaid: bool,
    /// The spec the machine starts with, before it is configured.
    #[serde(default)]
    pub first: Option<u8>,
    /// Custom precompiles are added.
    #[serde(default)]
    pub custom: bool,
}

fn customs() -> Vec<(Address, alloy_evm::precompiles::DynPrecompile)> {
    let p: revm::precompile::PrecompileFn = crate::model::custom_precompile;
    crate::model::CUSTOM_AT.map(|k| (addr(Ref::P(k)), p.into())).to_vec()
}
/// Adds the custom precompiles to a machine that was built without.
fn with_customs(mut evm: Plain) -> Plain {
    for (a, p) in customs() {
        alloy_evm::Evm::precompiles_mut(&mut evm).apply_precompile(&a, move |_| Some(p));
    }
    evm
}

/// Applies the generated switches to a configuration of either kind.
macro_rules! flags {
    ($cfg:expr, $f:expr) => {{
        let (c, f) = (&mut $cfg, $f);
        c.chain_id = if f & 1 != 0 { 1 } else { CHAIN_ID };
        c.tx_chain_id_check = f & 2 == 0;
        c.disable_nonce_check = f & 4 != 0;
        c.disable_balance_check = f & 8 != 0;
        c.disable_block_gas_limit = f & 16 != 0;
        c.disable_eip3541 = f & 32 != 0;
        c.disable_eip3607 = f & 64 != 0;
        c.disable_base_fee = f & 128 != 0;
        c.limit_contract_code_size = (f & 256 != 0).then_some(if f & 512 != 0 { 5 } else { 600_000 });
        c.limit_contract_initcode_size = (f & 1024 != 0).then_some(if f & 2048 != 0 { 40 } else { 700_000 });
        c.tx_gas_limit_cap = (f & 4096 != 0).then_some(if f & 8192 != 0 { 400_000 } else { 50_000_000 });
        c.memory_limit = if f & 16384 != 0 { 100 } else { (1 << 32) - 1 };
    }};
}

pub struct Routes;

#[derive(Clone)]
pub struct Envs(pub Salt, pub Orc, pub Rc<RefCell<Vec<u64>>>);
impl std::fmt::Debug for Envs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Envs")
    }
}
impl ExternalEnvFactory for Envs {
    type EnvTypes = Ext;
    fn external_envs(&self, block: u64) -> ExternalEnvs<Ext> {
        self.2.borrow_mut().push(block);
        ExternalEnvs { salt_env: self.0.clone(), oracle_env: self.1.clone() }
    }
}

type Plain = Mega<revm::inspector::NoOpInspector>;

/// A machine built in the `order`-th way; every way has to give the same machine.
fn build(sc: &Scenario, db: MemDb, block: BlockEnv, limits: EvmTxRuntimeLimits, salt: Salt, orc: Orc, c: &RouteCase, asked: &Rc<RefCell<Vec<u64>>>) -> Plain {
    use alloy_evm::{Evm, EvmEnv, EvmFactory};
    use op_revm::DefaultOp;
    let order = c.order;
    let mut cfg = cfg_of(sc.spec());
    flags!(cfg, c.flags);
    let asked = asked.clone();
    let custom = c.custom;
    let factory = move |salt, orc, asked| {
        let f = MegaEvmFactory::new();
        let b: mega_evm::DynPrecompilesBuilder = std::sync::Arc::new(move |_| customs().into_iter().collect());
        // the builder may be given before or after the environments
        if custom && order & 16 == 0 {
            return f.with_dyn_precompiles_builder(b).with_external_env_factory(Envs(salt, orc, asked));
        }
        let f = f.with_external_env_factory(Envs(salt, orc, asked));
        if custom { f.with_dyn_precompiles_builder(b) } else { f }
    };
    let hand = |evm| if custom { with_customs(evm) } else { evm };
    let first = c.first.map_or(sc.spec(), |f| SPECS[f as usize % SPECS.len()]);
    match order % 16 {
        15 | 7 => {
            let f = factory(salt, orc, asked);
            let evm = f.create_evm(db, EvmEnv { cfg_env: cfg, block_env: block });
            return if matches!(sc.lim, LimP::Default) { evm } else { evm.with_tx_runtime_limits(limits) };
        }
        14 | 6 => {
            let mut op = revm::context::CfgEnv::new_with_spec(sc.spec().into_op_spec());
            flags!(op, c.flags);
            let ctx = revm::Context::op()
                .with_db(db)
                .with_cfg(op)
                .with_chain(L1BlockInfo::default())
                .with_block(block);
            let ext = ExternalEnvs::<Ext> { salt_env: salt, oracle_env: orc };
            #[allow(deprecated)]
            let ctx = MegaContext::new_with_context(ctx, sc.spec(), ext);
            return hand(MegaEvm::new(ctx.with_tx_runtime_limits(limits)));
        }
        13 => {
            // what a machine hands back when it is taken apart rebuilds it
            let f = factory(salt, orc, asked);
            let evm = f.create_evm(db, EvmEnv { cfg_env: cfg, block_env: block });
            let (db, env) = evm.finish();
            return f.create_evm(db, env).with_tx_runtime_limits(limits);
        }
        12 => {
            let ext = ExternalEnvs::<Ext> { salt_env: salt, oracle_env: orc };
            let ctx = MegaContext::new(MemDb::default(), first)
                .with_cfg(cfg)
                .with_block(block)
                .with_external_envs(ext)
                .with_tx_runtime_limits(limits)
                .with_chain(L1BlockInfo::default());
            return hand(MegaEvm::new(ctx.with_db(db)));
        }
        11 => {
            let f = factory(salt, orc, asked);
            let rec = Rec::default();
            let evm = f.create_evm_with_inspector(db, EvmEnv { cfg_env: cfg, block_env: block }, rec);
            return evm.with_tx_runtime_limits(limits).without_inspector();
        }
        _ => {}
    }
    let ext = ExternalEnvs::<Ext> { salt_env: salt, oracle_env: orc };
    let mut k = order as usize / 11;
    let mut left = vec![0, 1, 2, 3];
    let mut seq = vec![];
    while !left.is_empty() {
        let i = k % left.len();
        k /= left.len();
        seq.push(left.remove(i));
    }
    macro_rules! apply {
        ($c:expr, $x:expr) => {
            match $x {
                0 => $c.with_cfg(cfg.clone()),
                1 => $c.with_block(block.clone()),
                _ => $c.with_tx_runtime_limits(limits),
            }
        };
    }
    // the limits may be left to follow the spec
    if matches!(sc.lim, LimP::Default) && order & 1 == 0 {
        seq.retain(|x| *x != 2);
    }
    let ext_at = seq.iter().position(|x| *x == 3).unwrap();
    let mut a = MegaContext::new(db, first);
    for x in &seq[..ext_at] {
        a = apply!(a, x);
    }
    let mut b = a.with_external_envs(ext);
    for x in &seq[ext_at + 1..] {
        b = apply!(b, x);
    }
    hand(MegaEvm::new(b.with_chain(L1BlockInfo::default())))
}

/// With fees not paid out, everything but the balances of the fee recipients is the same.
fn unpaid(coinbase: Address, before: &MemDb, want: &Obs, got: &Obs) -> Option<String> {
    let mut want = want.clone();
    let vaults = [
        coinbase,
        alloy_primitives::address!("4200000000000000000000000000000000000019"),
        alloy_primitives::address!("420000000000000000000000000000000000001a"),
        alloy_primitives::address!("420000000000000000000000000000000000001b"),
    ];
    for v in vaults {
        match (want.state.get_mut(&v), got.state.get(&v)) {
            (Some(w), Some(g)) => {
                if g.info.balance > w.info.balance {
                    return Some(format!("{v} has {} when fees are paid and {} when not", w.info.balance, g.info.balance));
                }
                w.info.balance = g.info.balance;
                w.status = g.status;
            }
            _ => {
                want.state.remove(&v);
            }
        }
    }
    let mut got = got.clone();
    for v in vaults {
        if !want.state.contains_key(&v) {
            got.state.remove(&v);
        }
    }
    same(before, &want, &got)
}

impl Prop for Routes {
    type In = RouteCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn gen(&self, r: &mut Rng) -> RouteCase {
        let mut p = Profile { specs: [1, 2, 2, 2, 3, 4, 1], ..Default::default() };
        p.lim = [5, 2, 1, 3];
        p.max_txs = r.range(1, 4);
        p.stmts = 5;
        p.expanded = 60;
        p.w.acct = 8;
        p.bad = 3;
        p.system = 4;
        p.w.transient = 4;
        p.w.selfdestruct = 3;
        p.w.create = 7;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        let custom = g.r.pct(15);
        if !custom {
            // (the sandbox has the standard precompiles only)
            g.some_keyless(&mut sc, 15);
        }
        let flags = if r.pct(50) { 0 } else { r.next() as u32 & r.next() as u32 };
        RouteCase { sc, order: r.next() as u8, route: r.u8(11), inline: r.pct(50), empties: r.pct(25), flags, unpaid: r.pct(8), first: r.pct(40).then(|| r.u8(7)), custom }
    }
    fn check(&self, c: &RouteCase) -> Outcome {
        let sc = &c.sc;
        let mut pass = Pass::default();
        let Some(fx) = fix(sc) else { return Ok(pass) };
        let limits = fx.limits.unwrap_or_else(|| EvmTxRuntimeLimits::from_spec(sc.spec()));
        let orc = || Orc { values: Rc::new(sc.oracle_values()), ..Default::default() };
        let mut cfg = cfg_of(sc.spec());
        flags!(cfg, c.flags);
        // the standard way
        let (o1, o2) = (orc(), orc());
        let mut db = sc.db();
        let mut block = sc.block();
        if c.flags & 0x18000 == 0x18000 {
            block.number = U256::ZERO;
            // op-revm panics on a block zero with anything but deposits: its L1 information is missing
            // (the transaction of a keyless deployment is none)
            if sc.txs.iter().any(|t| t.ty != TxT::Deposit || t.to == To::Call(Ref::Keyless)) {
                let _ = build(sc, sc.db(), block, limits, salt_of(sc), orc(), c, &Default::default());
                return Ok(pass);
            }
        }
        let mut evm = new_evm(db.detach(), block.clone(), cfg.clone(), fx.limits, salt_of(sc), o1.clone());
        if c.custom {
            evm = with_customs(evm);
            tag(&mut pass, "custom precompiles");
        }
        let mut want = vec![];
        let mut txs = vec![];
        let m = model_of(sc, limits);
        m.borrow_mut().custom = c.custom;
        let mut modelled = true;
        for (i, t) in sc.txs.iter().enumerate() {
            let tx = build_tx(t, &db, sc.basefee as u64, fx.gas[i]);
            let mut e = expect_in(&m, &db, tx.clone(), &block, &cfg);
            if e.facts.steps > crate::model::STEP_CAP {
                return Ok(pass);
            }
            let o = exec(&mut evm, &o1, tx.clone());
            // the switches do what they say
            if modelled && (e.facts.keyless.is_empty() || c.flags == 0) {
                if sc.spec == 0 {
                    e.obs.usage = o.usage.clone();
                    e.obs.volatile = o.volatile;
                }
                let (mut after, mut got) = (db.clone(), db.clone());
                after.apply(&e.obs.state);
                got.apply(&o.state);
                let state = state_diff(&after, &got).map(|d| mism("state", d));
                if let Some(x) = cmp_ref(&e.obs, &o, sc.spec == 0).or(state) {
                    return Err(Fail::new(format!("configured machine: {}", x.what), format!("tx {i}: {}", x.detail)));
                }
            } else {
                // what the sandbox makes of the switches is not specified
                modelled = false;
            }
            commit(&mut evm, &o);
            txs.push((tx, db.clone()));
            db.apply(&o.state);
            want.push(o);
        }
        // the other way
        let mut other = sc.db().detach();
        other.inline_code = c.inline;
        // the refund for an authority that already exists is op-revm's to decide
        other.empties = c.empties && sc.txs.iter().all(|t| t.ty != TxT::SetCode);
        let asked = Rc::new(RefCell::new(vec![]));
        let mut evm = build(sc, other, block.clone(), limits, salt_of(sc), o2.clone(), c, &asked);
        if let Some(b) = asked.borrow().iter().find(|b| U256::from(**b) != block.number) {
            return Err(Fail::new("external environment of another block", format!("the factory asked for block {b}, not {}", block.number)));
        }
        let route = c.route % 11;
        tag(&mut pass, &format!("route:{route}"));
        tag(&mut pass, &format!("built:{}", if c.order % 16 < 6 || (8..11).contains(&(c.order % 16)) { 0 } else { c.order % 16 }));
        if c.flags != 0 {
            tag(&mut pass, "flags");
        }
        if c.unpaid {
            evm.ctx.disable_beneficiary();
            tag(&mut pass, "unpaid");
        }
        for (i, (tx, before)) in txs.iter().enumerate() {
            let tx = tx.clone();
            o2.hints.borrow_mut().clear();
            if want[i].res.is_ok() {
                pass.nontrivial = true;
            }
            pass.evals += 1;
            let fail = |d: String| Err(Fail::new("outcome depends on the route", format!("tx {i}, route {route}: {d}")));
            let rs = |r: Result<_, _>, evm: &mut Plain| {
                let state = evm.finalize();
                r.map(|result| revm::context::result::ResultAndState { result, state })
            };
            let out = match route {
                0 | 1 => {
                    // with and without the (idle) inspector
                    alloy_evm::Evm::set_inspector_enabled(&mut evm, route == 1);
                    let o = exec(&mut evm, &o2, tx);
                    if c.unpaid {
                        return unpaid(sc.block().beneficiary, before, &want[i], &o).map_or(Ok(pass), fail);
                    }
                    if let Some(d) = same(before, &want[i], &o) {
                        return fail(d);
                    }
                    commit(&mut evm, &o);
                    continue;
                }
                2 => alloy_evm::Evm::transact_raw(&mut evm, tx),
                3 => alloy_evm::Evm::transact(&mut evm, tx),
                4 => {
                    let r = evm.transact_one(tx);
                    rs(r, &mut evm)
                }
                5 => evm.inspect_tx(tx),
                6 => {
                    let r = evm.inspect_one_tx(tx);
                    rs(r, &mut evm)
                }
                7 => {
                    use revm::context::ContextSetters;
                    evm.ctx.set_tx(tx);
                    let r = evm.replay();
                    if r.is_err() {
                        evm.finalize();
                    }
                    r
                }
                8 | 9 if !c.unpaid => {
                    // committing entry points
                    let r = if route == 8 { evm.transact_commit(tx) } else { evm.inspect_tx_commit(tx) };
                    let got = match r {
                        Ok(x) => Ok(observe(&x)),
                        Err(e) => {
                            // revm: after an error the journal has to be cleared
                            evm.finalize();
                            Err(format!("{e:?}"))
                        }
                    };
                    if got != want[i].res {
                        return fail(format!("{:?} vs {got:?}", want[i].res));
                    }
                    let mut after = before.clone();
                    after.apply(&want[i].state);
                    if let Some(d) = state_diff(&after, &evm.ctx.db().detach()) {
                        return fail(d);
                    }
                    continue;
                }
                _ => {
                    #[allow(deprecated)]
                    let r = evm.inspect_transaction(tx);
                    r.map(|o| revm::context::result::ResultAndState { result: o.result, state: o.state })
                }
            };
            let got = match out {
                Ok(x) => {
                    let u = evm.ctx.additional_limit.borrow().get_usage();
                    let mut buckets = evm.get_accessed_bucket_ids();
                    buckets.sort();
                    Obs {
                        odd: None,
                        res: Ok(observe(&x.result)),
                        usage: Usage { data: u.data_size, kv: u.kv_updates, compute: u.compute_gas, growth: u.state_growth },
                        state: x.state,
                        hints: o2.hints.borrow().clone(),
                        buckets,
                        volatile: evm.ctx.volatile_data_tracker.borrow().get_volatile_data_accessed().bits(),
                    }
                }
                Err(e) => Obs {
                    odd: None,
                    res: Err(format!("{e:?}")),
                    usage: Usage::default(),
                    state: Default::default(),
                    hints: vec![],
                    buckets: vec![],
                    volatile: 0,
                },
            };
            if c.unpaid {
                return unpaid(sc.block().beneficiary, before, &want[i], &got).map_or(Ok(pass), fail);
            }
            if let Some(d) = same(before, &want[i], &got) {
                return fail(d);
            }
            evm.ctx.db_mut().commit(got.state);
        }
        Ok(pass)
    }
    fn budget(&self) -> (u64, u64) {
        (140_000, 3_000_000)
    }
    fn rule(&self) -> &'static str {
        "The same random transactions run on a machine built another way (any order of the builder calls, the factory with and without an inspector, new_with_context over an Optimism context, with_db, taken apart by finish and rebuilt), with random configuration switches, over databases that do or do not carry code inline and report missing accounts as absent or empty, and driven through each entry point (execute_transaction with the idle inspector on or off, transact_raw, transact, transact_one, inspect_tx, inspect_one_tx, replay, transact_commit, inspect_tx_commit, inspect_transaction). Every observable must agree; with fees not paid out, everything but the fee recipients' balances. Non-trivial: a transaction is accepted."
    }
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(Isolation), Box::new(Inspectors), Box::new(RawCode), Box::new(Routes)]
}
