//! Keyless deployment.
use crate::{diff::*, gen::*, props2::*, rng::Rng, runner::*, scen::*, world::*};

pub struct KeylessProp;

impl G<'_> {
    pub fn keyless(&mut self, sc: &Scenario) -> Keyless {
        let r = &mut *self.r;
        let (value, price) = (
            if r.pct(25) { if r.pct(5) { 200 } else { r.range(1, 3) as u8 } } else { 0 },
            if r.pct(4) { r.pick(&[200, 201, 203]) } else { sc.basefee + r.u8(3) },
        );
        let gas = r.log(300_000) as u32;
        let over = if r.pct(if price >= 200 { 30 } else { 3 }) { r.pick(&[1 << 62, 1 << 63, u64::MAX]) } else { r.pick(&[30_000_000u64, 30_000_000, 3_000_000, 400_000]) };
        let nonce = if r.pct(3) { r.range(1, 2) as u8 } else { 0 };
        let (sig, bad) = (r.u8(255), if r.pct(15) { r.range(1, 15) as u8 } else { 0 });
        let fund = r.weighted(&[70, 15, 4, 4]) as u8;
        let signer_nonce = r.weighted(&[70, 25, 5]) as u8;
        let at = r.weighted(&[80, 8, 6, 4, 3]) as u8;
        let bits = if r.pct(50) { r.u8(16) & if r.pct(80) { 0xb } else { 0xf } } else { 0 };
        Keyless {
            init: Init {
                ctor: self.stmts(6, 1),
                rt: if self.r.pct(10) { Rt::Empty } else { self.rt(1) },
            },
            value, price, gas, over, nonce, sig, bad, fund, signer_nonce, at, bits,
        }
    }
    /// Keyless deployments in some scenarios of a property that is not about them.
    pub fn some_keyless(&mut self, sc: &mut Scenario, pct: u64) {
        if sc.spec >= 4 && self.r.pct(pct) {
            if self.r.pct(70) {
                keyless_code(sc);
            }
            self.add_keyless(sc, 50);
        }
    }
    /// Turns some transactions of a scenario into keyless deployments.
    pub fn add_keyless(&mut self, sc: &mut Scenario, pct: u64) {
        let mut prev: Option<Keyless> = None;
        for i in 0..sc.txs.len() {
            if !self.r.pct(pct) {
                continue;
            }
            let mut k = match &prev {
                Some(k) if self.r.pct(50) => k.clone(),
                _ => self.keyless(sc),
            };
            if self.r.pct(4) {
                // destroyed as soon as deployed, where ether waits
                k.at = 1;
                let to = if self.r.pct(30) { self.any_ref() } else { Ref::E(self.r.u8(3)) };
                k.init.ctor.push(Stmt::SelfDestruct(to));
            }
            for _ in 0..20 {
                if k.signer().is_some() || k.bad != 0 {
                    break;
                }
                k.sig = k.sig.wrapping_add(1);
            }
            if self.r.pct(2) {
                k.gas = k.over.saturating_add(self.r.range(0, 2)).saturating_sub(1).min(u32::MAX as u64) as u32;
            }
            sc.txs[i].to = To::Call(Ref::Keyless);
            if !self.r.pct(5) {
                sc.txs[i].value = 0;
            }
            sc.txs[i].auths.truncate(1);
            sc.txs[i].input = Inp::Keyless(Box::new(k.clone()));
            if !matches!(sc.txs[i].gas, GasP::Abs(_)) || self.r.pct(60) {
                sc.txs[i].gas = if self.r.pct(90) { GasP::Abs(self.r.range(300_000, 3_000_000)) } else { GasP::Off(self.r.range(0, 4) as i32 - 2) };
            }
            // override around what the inner transaction needs
            if self.r.pct(45) && k.bad == 0 {
                let m = model_of(sc, no_limits());
                let mut db = sc.db();
                for t in &sc.txs[..=i] {
                    let e = expect(&m, sc, &db, build_tx(t, &db, sc.basefee as u64, 50_000_000));
                    db.apply(&e.obs.state);
                }
                let need = m.borrow().facts.inner_peak;
                if need > 0 {
                    k.over = match self.r.below(4) {
                        0 => need,
                        1 => need - 1,
                        2 => need * self.r.range(50, 100) / 100,
                        _ => need + self.r.below(5000),
                    };
                    if !self.r.pct(3) {
                        k.gas = k.gas.min(k.over as u32 / 2);
                    }
                    sc.txs[i].input = Inp::Keyless(Box::new(k.clone()));
                }
            }
            prev = Some(k);
        }
    }
}

pub fn keyless_code(sc: &mut Scenario) {
    sc.accs.push(AccP {
        who: Ref::Keyless,
        balance: 0,
        nonce: 1,
        code: Code::Raw(mega_system_contracts::keyless_deploy::V1_0_0_CODE.to_vec()),
        storage: vec![],
    });
}

impl Prop for KeylessProp {
    type In = Scenario;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn gen(&self, r: &mut Rng) -> Scenario {
        let mut p = Profile { specs: [1, 1, 1, 1, 8, 10, 3], ..Default::default() };
        p.ty = [5, 4, 3, 1, 2];
        p.lim = [8, 1, 2, 2];
        p.max_txs = 3;
        p.stmts = 5;
        p.w.env = 5;
        p.w.selfdestruct = 3;
        p.w.term = 4;
        p.bad = 2;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        if g.r.pct(70) {
            keyless_code(&mut sc);
        }
        g.add_keyless(&mut sc, 75);
        sc
    }
    fn check(&self, sc: &Scenario) -> Outcome {
        let st = diff(sc).map_err(|m| Fail::new(m.what, m.detail))?;
        let mut pass = Pass { evals: st.txs.len().saturating_sub(1) as u64, ..Default::default() };
        for t in &st.txs {
            if t.kind == "revert" && !t.facts.keyless.is_empty() {
                // a caller reads the error back from what the call returns
                use mega_evm::sandbox::{decode_error_result, encode_error_result};
                let name = t.facts.keyless.split(' ').next().unwrap_or("");
                let Some(e) = decode_error_result(&t.output) else {
                    return Err(Fail::new("decode", format!("{name}: {} decodes to no error", t.output)));
                };
                if !format!("{e:?}").starts_with(name) || encode_error_result(e.clone()) != t.output {
                    return Err(Fail::new("decode", format!("{name}: {} decodes to {e:?}", t.output)));
                }
            }
            if !t.facts.keyless.is_empty() {
                pass.nontrivial = true;
                tag(&mut pass, &format!("keyless:{}", t.facts.keyless));
            }
        }
        st.tags(&mut pass.tags);
        Ok(pass)
    }
    fn budget(&self) -> (u64, u64) {
        (100_000, 2_500_000)
    }
    fn rule(&self) -> &'static str {
        "Random worlds with 1-3 transactions, most of them calls of keylessDeploy with generated init code, signatures, funds, signer and target states, gas overrides at and around what the creation needs, access lists naming signer and target, malformed encodings; the reference model runs the signed creation as a transaction of its own, and the returned error must decode to the one meant. Non-trivial: a call was intercepted."
    }
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(KeylessProp)]
}
