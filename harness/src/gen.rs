//! Scenario generators. A `Profile` weights what a property is about; everything else stays
//! possible in every scenario.
use crate::{rng::Rng, scen::*, world::*};

#[derive(Clone, Debug)]
pub struct Profile {
    /// Weights for the seven specs.
    pub specs: [u32; 7],
    pub w: W,
    /// Weights: default limits, none, absolute small, relative.
    pub lim: [u32; 4],
    /// Dimensions that relative limits may use.
    pub lim_mask: u8,
    /// Weights: plenty, relative to need, near need.
    pub gas: [u32; 3],
    /// Weights: legacy, access list, dynamic fee, set code, deposit.
    pub ty: [u32; 5],
    pub max_txs: u64,
    /// Percent of create transactions.
    pub create_tx: u64,
    /// Percent of transactions with value.
    pub value: u64,
    /// Percent of transactions that are malformed somehow (nonce, fee, gas...).
    pub bad: u64,
    /// Percent of scenarios with expanded buckets.
    pub expanded: u64,
    pub system: u64,
    pub raw_code: u64,
    /// Percent of transactions with sizeable calldata
    pub calldata: u64,
    pub stmts: u64,
    pub odd_coinbase: u64,
    /// Percent of scenarios whose database is sparse/unusual (accounts missing, poor callers).
    pub poor: u64,
    /// Percent of code and init code lengths around the size limits, with the gas for them.
    pub huge: u64,
}

/// Statement weights.
#[derive(Clone, Debug)]
pub struct W {
    pub sstore: u32,
    pub sload: u32,
    pub transient: u32,
    pub log: u32,
    pub mem: u32,
    pub env: u32,
    pub acct: u32,
    pub call: u32,
    pub call_value: u64,
    pub precompile: u32,
    pub oracle: u32,
    pub create: u32,
    pub create_raw: u32,
    pub selfdestruct: u32,
    pub gas: u32,
    pub loops: u32,
    pub cond: u32,
    pub heavy: u32,
    pub term: u32,
    pub raw: u32,
    pub big: u32,
}

impl Default for W {
    fn default() -> Self {
        W {
            sstore: 10,
            sload: 3,
            transient: 2,
            log: 4,
            mem: 3,
            env: 3,
            acct: 3,
            call: 10,
            call_value: 30,
            precompile: 2,
            oracle: 2,
            create: 5,
            create_raw: 1,
            selfdestruct: 1,
            gas: 2,
            loops: 3,
            cond: 2,
            heavy: 2,
            term: 2,
            raw: 1,
            big: 1,
        }
    }
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            specs: [0, 4, 4, 2, 4, 5, 3],
            w: W::default(),
            lim: [5, 3, 1, 3],
            lim_mask: 0x3f,
            gas: [6, 2, 2],
            ty: [6, 1, 2, 2, 2],
            max_txs: 3,
            create_tx: 15,
            value: 30,
            bad: 4,
            expanded: 40,
            system: 2,
            raw_code: 2,
            calldata: 20,
            stmts: 6,
            odd_coinbase: 8,
            poor: 5,
            huge: 0,
        }
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub p: &'a Profile,
}

pub const N_CONTRACTS: u8 = 5;

pub fn big_gas(spec: u8) -> u64 {
    match spec % 7 {
        0 => 20_000_000,
        1 => 400_000_000,
        _ => 60_000_000,
    }
}

impl<'a> G<'a> {
    pub fn val(&mut self) -> Val {
        match self.r.weighted(&[8, 6, 2, 2, 2, 1, 1, 1, 2, 1, 1, 1, 1]) {
            0 => Val::K(self.r.below(4)),
            1 => Val::K(0),
            2 => Val::K(self.r.next()),
            3 => Val::Gas,
            4 => Val::Slot(self.r.u8(6)),
            5 => Val::Env(self.r.u8(10) + if self.r.pct(15) { 10 * self.r.u8(5) } else { 0 }),
            6 => Val::Caller,
            7 => Val::CallValue,
            8 => Val::Data(self.r.u8(3) * 32),
            9 => Val::Bal(self.any_ref()),
            10 => Val::Max,
            11 => Val::Wide(self.r.u8(3)),
            _ => Val::RetSize,
        }
    }
    /// An amount within the range, rarely one beyond 64 bits.
    fn amt(&mut self, a: u64, b: u64) -> u64 {
        if self.r.pct(3) {
            1 << 63 | self.r.range(1, 3)
        } else {
            self.r.range(a, b)
        }
    }
    /// A balance, rarely one beyond 64 bits.
    fn bal(&mut self, b: u64) -> u64 {
        if self.r.pct(5) {
            self.r.pick(&[1 << 63 | 1, 1 << 63 | 5, 1 << 63 | 16 << 16 | 0xffff, 1 << 63 | 50 << 16 | 1])
        } else {
            b
        }
    }
    /// A nonce, rarely the last ones.
    fn nonce(&mut self, n: u64) -> u64 {
        if self.r.pct(1) {
            u64::MAX - self.r.below(2)
        } else {
            n
        }
    }
    /// Length of a hint's data: mostly short, rarely longer than a page.
    fn hint_len(&mut self) -> u8 {
        if self.r.pct(4) {
            self.r.range(200, 255) as u8
        } else {
            self.r.u8(60)
        }
    }
    fn slot(&mut self) -> u8 {
        let k = self.r.u8(6);
        if self.r.pct(5) {
            k | self.r.pick(&[0x80, 0xc0])
        } else {
            k
        }
    }
    pub fn any_ref(&mut self) -> Ref {
        match self.r.weighted(&[3, 3, 2, 4, 2, 1, 1, 1, 1, 2]) {
            0 => Ref::E(self.r.u8(3)),
            1 => Ref::C(self.r.u8(N_CONTRACTS as u64)),
            2 => Ref::D(self.r.u8(4)),
            3 => Ref::N(self.r.u8(6)),
            4 => Ref::P(self.r.u8(0x13)),
            5 => Ref::Oracle,
            6 => Ref::System,
            7 => Ref::X(self.r.u8(N_CONTRACTS as u64), self.r.u8(3) + 1),
            8 => Ref::Keyless,
            _ => Ref::Coinbase,
        }
    }
    /// Target of a call made by contract `me` (6 and above: code created at run time).
    fn target(&mut self, me: u8) -> (Ref, bool) {
        match self.r.weighted(&[10, 2, 5, 3, 2, 1, 1, 1, 1]) {
            0 if me + 1 < N_CONTRACTS => (Ref::C(self.r.range(me as u64 + 1, N_CONTRACTS as u64 - 1) as u8), false),
            0 | 1 => (Ref::E(self.r.u8(3)), false),
            2 => (Ref::N(self.r.u8(6)), false),
            3 => {
                let d = self.r.u8(4);
                (Ref::D(d), me >= 3)
            }
            4 => (Ref::C(self.r.u8(N_CONTRACTS as u64)), true),
            5 => (Ref::X(self.r.u8(N_CONTRACTS as u64), self.r.u8(3) + 1), true),
            6 => (Ref::Coinbase, true),
            7 => (Ref::P(self.r.u8(0x13)), false),
            _ => (self.any_ref(), true),
        }
    }
    fn inp(&mut self) -> Inp {
        match self.r.weighted(&[5, 3, 1]) {
            0 => Inp::Mem(self.r.below(80) as u16),
            1 => {
                let n = self.r.below(70) as usize;
                Inp::Data(self.r.bytes(n))
            }
            _ => Inp::Hint(self.r.u8(4), self.hint_len(), self.r.pct(15)),
        }
    }
    pub fn stmts(&mut self, me: u8, depth: u8) -> Vec<Stmt> {
        let n = self.r.below(self.p.stmts + 1);
        (0..n).map(|_| self.stmt(me, depth)).collect()
    }
    fn kind(&mut self) -> Kind {
        match self.r.weighted(&[6, 2, 3, 2]) {
            0 => Kind::Call,
            1 => Kind::CallCode,
            2 => Kind::Delegate,
            _ => Kind::Static,
        }
    }
    fn call(&mut self, me: u8) -> Stmt {
        let (to, small) = self.target(me);
        let gas = if small {
            CallGas::K(self.r.log(400_000) as u32)
        } else {
            match self.r.weighted(&[6, 3, 2]) {
                0 => CallGas::All,
                1 => CallGas::Huge,
                _ => CallGas::K(self.r.log(5_000_000) as u32),
            }
        };
        Stmt::Call {
            kind: self.kind(),
            to,
            value: if self.r.pct(self.p.w.call_value) { self.amt(1, 3) } else { 0 },
            gas,
            inp: self.inp(),
            out: if self.r.pct(30) { self.r.below(70) as u16 } else { 0 },
            keep: if self.r.pct(15) { Some(self.slot()) } else { None },
        }
    }
    pub fn rt(&mut self, depth: u8) -> Rt {
        match self.r.weighted(&[3, 3, 1, 5]) {
            0 => Rt::Empty,
            1 => Rt::Zeros(if self.r.pct(self.p.huge) {
                self.r.pick(&[524_287, 524_288, 524_289, 24_576, 24_577])
            } else if self.r.pct(self.p.w.big as u64) {
                self.r.pick(&[24_576, 24_577, 49_152, 100_000])
            } else {
                self.r.log(300) as u32
            }),
            2 => Rt::Ef,
            _ => Rt::Prog(self.stmts(6, depth + 2)),
        }
    }
    pub fn init(&mut self, depth: u8) -> Init {
        Init {
            ctor: if self.r.pct(60) { self.stmts(6, depth + 2) } else { vec![] },
            rt: self.rt(depth),
        }
    }
    fn create(&mut self, depth: u8) -> Stmt {
        Stmt::Create {
            two: if self.r.pct(50) { Some(self.r.u8(3)) } else { None },
            value: if self.r.pct(25) { self.amt(1, 3) } else { 0 },
            init: Box::new(self.init(depth)),
            keep: if self.r.pct(25) { Some(self.slot()) } else { None },
            unexpanded: self.r.pct(10),
        }
    }
    pub fn stmt(&mut self, me: u8, depth: u8) -> Stmt {
        let w = &self.p.w;
        let deep = depth >= 3;
        let ws = [
            w.sstore,
            w.sload,
            w.transient,
            w.log,
            w.mem,
            w.env,
            w.acct,
            w.call,
            w.precompile,
            w.oracle,
            if deep { 0 } else { w.create },
            w.create_raw,
            w.selfdestruct,
            w.gas,
            if deep { 0 } else { w.loops },
            if deep { 0 } else { w.cond },
            w.heavy,
            w.term,
            w.raw,
        ];
        match self.r.weighted(&ws) {
            0 => {
                if self.r.pct(10) {
                    Stmt::SStoreHi(self.slot(), self.val())
                } else {
                    Stmt::SStore(self.slot(), self.val())
                }
            }
            1 => Stmt::SLoad(self.slot()),
            2 => {
                if self.r.pct(50) {
                    Stmt::TStore(self.slot(), self.val())
                } else {
                    Stmt::TLoad(self.slot(), self.slot())
                }
            }
            3 => Stmt::Log(
                self.r.u8(5),
                if self.r.pct(self.p.w.big as u64) { self.r.log(60_000) as u32 } else { self.r.below(100) as u32 },
            ),
            4 => match self.r.below(5) {
                0 => Stmt::MStore(self.r.below(200) as u16, self.val()),
                1 => Stmt::Copy(self.r.u8(3), self.r.below(200) as u16),
                2 => Stmt::RetCopy,
                3 => Stmt::Exp(self.r.u8(32)),
                _ => Stmt::Keccak(self.r.below(300) as u32),
            },
            5 => Stmt::Env(self.r.u8(10) + if self.r.pct(15) { 10 * self.r.u8(5) } else { 0 }),
            6 => match self.r.below(5) {
                0 => Stmt::ExtCopy(self.any_ref(), self.r.below(100) as u16),
                1 => Stmt::SelfBal,
                _ => Stmt::Acct(self.r.u8(3), self.any_ref()),
            },
            7 => self.call(me),
            8 => {
                let k = if self.r.pct(60) { self.r.pick(&[1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 9, 0x0a, 0x0a]) } else { self.r.u8(0x13) };
                Stmt::Call {
                    kind: self.kind(),
                    to: Ref::P(k),
                    value: if self.r.pct(20) { 1 } else { 0 },
                    gas: if self.r.pct(70) { CallGas::All } else { CallGas::K(self.r.log(200_000) as u32) },
                    inp: if self.r.pct(70) { Inp::Pre(k, self.r.below(5000) as u16) } else { self.inp() },
                    out: self.r.below(70) as u16,
                    keep: if self.r.pct(30) { Some(self.slot()) } else { None },
                }
            }
            9 => Stmt::Call {
                kind: self.kind(),
                to: Ref::Oracle,
                value: if self.r.pct(10) { 1 } else { 0 },
                gas: CallGas::All,
                inp: if self.r.pct(60) {
                    Inp::Hint(self.r.u8(4), self.hint_len(), self.r.pct(15))
                } else {
                    Inp::Mem(0)
                },
                out: 32,
                keep: if self.r.pct(20) { Some(self.slot()) } else { None },
            },
            10 => self.create(depth),
            11 => Stmt::CreateRaw {
                two: self.r.pct(70),
                off: self.r.pick(&[0, 0, 32, 1000, 100_000]),
                len: if self.r.pct(self.p.huge) {
                    self.r.pick(&[548_863, 548_864, 548_865, 524_289, 49_152, 49_153])
                } else {
                    self.r.pick(&[0, 1, 32, 33, 500, 49_152, 49_153, 100_000])
                },
            },
            12 => Stmt::SelfDestruct(self.any_ref()),
            13 => Stmt::StoreGas(self.slot()),
            14 => Stmt::Loop(
                if self.r.pct(70) { self.r.range(2, 6) } else { self.r.log(60) } as u16,
                self.stmts(me, depth + 2),
            ),
            15 => Stmt::If(self.val(), self.stmts(me, depth + 2)),
            16 => match self.r.below(3) {
                0 => Stmt::Keccak(self.r.log(20_000) as u32),
                1 => Stmt::Loop(self.r.log(3000) as u16, vec![Stmt::Exp(31)]),
                _ => Stmt::MStore(self.r.log(60_000) as u16, Val::K(1)),
            },
            17 => match self.r.weighted(&[4, 5, 2, 2, 1]) {
                0 => Stmt::Return(self.r.below(100) as u32),
                1 => Stmt::Revert(self.r.below(100) as u32),
                2 => Stmt::Invalid,
                3 => Stmt::Stop,
                _ => Stmt::BadJump,
            },
            _ => {
                let n = self.r.range(1, 4) as usize;
                Stmt::Raw(self.r.bytes(n))
            }
        }
    }
    fn storage(&mut self) -> Vec<(u8, u64)> {
        let n = self.r.below(5);
        (0..n).map(|_| (self.slot(), if self.r.pct(5) { 1 << 63 | 1 } else { self.r.range(1, 3) })).collect()
    }
    pub fn accounts(&mut self, coinbase: Ref) -> Vec<AccP> {
        let mut v = vec![];
        let poor = self.r.pct(self.p.poor);
        for i in 0..3u8 {
            let balance = if poor && self.r.pct(40) {
                self.r.log(1 << 40)
            } else {
                self.bal(1 << 60)
            };
            let n = self.r.below(3);
            v.push(AccP { who: Ref::E(i), balance, nonce: self.nonce(n), code: Code::None, storage: vec![] });
        }
        for i in 0..N_CONTRACTS {
            if self.r.pct(8) {
                continue;
            }
            let code = if self.r.pct(self.p.raw_code) {
                let n = self.r.below(60) as usize;
                Code::Raw(self.r.bytes(n))
            } else {
                let mut s = self.stmts(i, 0);
                if i == 0 && s.is_empty() {
                    s = self.stmts(i, 0);
                }
                Code::Prog(s)
            };
            v.push(AccP {
                who: Ref::C(i),
                balance: {
                    let b = self.r.pick(&[0, 1, 10, 1000]);
                    self.bal(b)
                },
                nonce: self.nonce(1),
                code,
                storage: self.storage(),
            });
        }
        for i in 0..4u8 {
            if self.r.pct(12) {
                continue;
            }
            let to = match self.r.weighted(&[8, 2, 1, 1, 1]) {
                0 => Ref::C(self.r.range(3, 4) as u8),
                1 => Ref::N(self.r.u8(3)),
                2 => Ref::P(self.r.u8(0x13)),
                3 => Ref::D((i + 1) % 4),
                _ => Ref::E(self.r.u8(3)),
            };
            v.push(AccP {
                who: Ref::D(i),
                balance: self.r.pick(&[0, 5, 1 << 60, 1 << 60, 1 << 60, 1 << 60, 1 << 60, 1 << 60]),
                nonce: {
                    let n = 1 + self.r.below(2);
                    self.nonce(n)
                },
                code: Code::Delegate(to),
                storage: self.storage(),
            });
        }
        if self.r.pct(70) {
            // a stand-in for the oracle contract: returns a slot
            // it rarely calls itself
            let mut p2 = self.p.clone();
            p2.w.oracle = p2.w.oracle.min(1);
            let mut prog = G { r: self.r, p: &p2 }.stmts(6, 3);
            prog.push(Stmt::SLoad(self.slot()));
            prog.push(Stmt::MStore(0, Val::Slot(self.slot())));
            prog.push(Stmt::Return(32));
            v.push(AccP {
                who: Ref::Oracle,
                balance: 0,
                nonce: 1,
                code: Code::Prog(prog),
                storage: self.storage(),
            });
        }
        if self.r.pct(50) && coinbase == Ref::Coinbase {
            v.push(AccP { who: Ref::Coinbase, balance: self.r.pick(&[7, 1 << 60]), nonce: 0, code: Code::None, storage: vec![] });
        }
        if self.r.pct(30) {
            v.push(AccP { who: Ref::System, balance: self.r.below(3), nonce: self.r.below(3), code: Code::None, storage: vec![] });
        }
        if self.r.pct(20) {
            // pre-funded target of a future creation
            v.push(AccP {
                who: Ref::X(self.r.u8(3), 1),
                balance: 3,
                nonce: if self.r.pct(30) { 1 } else { 0 },
                code: Code::None,
                storage: vec![],
            });
        }
        v
    }
    pub fn tx(&mut self, spec: u8) -> TxP {
        let p = self.p;
        let system = self.r.pct(p.system);
        let ty = if system && self.r.pct(90) {
            TxT::Legacy
        } else {
            [TxT::Legacy, TxT::Acl, TxT::Dyn, TxT::SetCode, TxT::Deposit][self.r.weighted(&p.ty)]
        };
        let bad = self.r.pct(p.bad);
        let create = self.r.pct(p.create_tx) && (ty != TxT::SetCode || bad);
        let to = if system {
            To::Call(if self.r.pct(85) { Ref::Oracle } else { self.any_ref() })
        } else if create {
            if self.r.pct(p.huge / 2) {
                To::CreateLen(self.r.pick(&[548_863, 548_864, 548_865, 49_152, 49_153]))
            } else if self.r.pct(10) {
                let n = self.r.below(40) as usize;
                To::CreateRaw(self.r.bytes(n))
            } else {
                To::Create(self.init(0))
            }
        } else {
            To::Call(match self.r.weighted(&[14, 3, 2, 2, 1]) {
                0 => Ref::C(self.r.weighted(&[6, 3, 2, 1, 1]) as u8),
                1 => Ref::N(self.r.u8(6)),
                2 => Ref::D(self.r.u8(4)),
                3 => self.any_ref(),
                _ => Ref::P(self.r.u8(0x13)),
            })
        };
        let gas = match self.r.weighted(&p.gas) {
            0 => GasP::Abs(if p.huge > 0 {
                12_000_000_000
            } else if spec % 7 > 0 && self.r.pct(2) {
                self.r.range(5_000_000_000, 20_000_000_000)
            } else {
                big_gas(spec)
            }),
            1 => GasP::Rel(if self.r.pct(95) { self.r.range(0, 1200) } else { 1280 + self.r.range(100, 1100) } as u16),
            _ => GasP::Off(if self.r.pct(40) {
                self.r.range(0, 6) as i32 - 3
            } else {
                self.r.range(0, 60_000) as i32 - 20_000
            }),
        };
        let input = if let (To::Call(Ref::P(k)), true) = (&to, self.r.pct(60)) {
            Inp::Pre(*k, self.r.below(5000) as u16)
        } else if self.r.pct(p.calldata) {
            match self.r.below(3) {
                0 => Inp::Hint(self.r.u8(4), self.hint_len(), self.r.pct(15)),
                1 => Inp::Mem(if self.r.pct(7) { self.r.range(3000, 65_000) } else { self.r.log(3000) } as u16),
                _ => {
                    let n = self.r.log(300) as usize;
                    Inp::Data(self.r.bytes(n))
                }
            }
        } else {
            Inp::Data(vec![])
        };
        let caller = if system {
            Ref::System
        } else {
            match self.r.weighted(&[60, 6, 1, if bad { 9 } else { 0 }]) {
                0 => Ref::E(self.r.u8(3)),
                1 => Ref::D(self.r.u8(4)),
                2 => Ref::Coinbase,
                _ => self.any_ref(),
            }
        };
        let acl = if self.r.pct(60) {
            let many = self.r.pct(5);
            let n = if many { self.r.range(4, 30) } else { self.r.below(4) };
            (0..n)
                .map(|_| {
                    let r = self.any_ref();
                    let k = if many && self.r.pct(10) { self.r.below(40) } else { self.r.below(4) };
                    (r, (0..k).map(|_| self.slot()).collect())
                })
                .collect()
        } else {
            vec![]
        };
        let n_auth = if self.r.pct(5) { self.r.range(4, 10) } else { self.r.range(if bad { 0 } else { 1 }, 3) };
        let auths = (0..n_auth)
            .map(|_| AuthP {
                authority: match self.r.below(8) {
                    0 => None,
                    1 => Some(self.any_ref()),
                    2 | 3 => Some(Ref::D(self.r.u8(4))),
                    4 => Some(Ref::N(self.r.u8(6))),
                    _ => Some(Ref::E(self.r.u8(3))),
                },
                delegate: match self.r.below(5) {
                    0 => Ref::N(255),
                    1 => self.any_ref(),
                    _ => Ref::C(self.r.range(2, 4) as u8),
                },
                nonce_delta: if self.r.pct(15) { 1 } else { 0 },
                chain: self.r.u8(8),
            })
            .collect();
        TxP {
            ty,
            caller,
            to,
            value: if self.r.pct(p.value) { self.amt(1, 5) } else { 0 },
            gas: if bad && self.r.pct(40) { GasP::Abs(self.r.log(100_000)) } else { gas },
            input,
            acl,
            auths,
            nonce_delta: if bad && self.r.pct(30) { self.r.below(3) as i8 - 1 } else { 0 },
            fee: if self.r.pct(2) { 200 } else { self.r.u8(4) },
            tip: if self.r.pct(2) { 200 } else { self.r.u8(4) },
            mint: if self.r.pct(40) { self.r.below(4) + if self.r.pct(5) { 1 << 63 } else { 0 } } else { 0 },
        }
    }
    pub fn limits(&mut self) -> LimP {
        let p = self.p;
        match self.r.weighted(&p.lim) {
            0 => LimP::Default,
            1 => LimP::NoLimits,
            2 => {
                let mut v = [0u64; 6];
                let i = self.r.below(6) as usize;
                v[i] = match i {
                    0 => self.r.log(20_000),
                    1 => self.r.log(30),
                    2 => self.r.log(2_000_000),
                    3 => self.r.log(10),
                    _ => self.r.log(1_000_000),
                };
                if i >= 4 && self.r.pct(50) {
                    v[2] = self.r.log(1_000_000);
                }
                LimP::Abs(v)
            }
            _ => {
                let mut mask = 0;
                while mask == 0 {
                    mask = if self.r.pct(75) { 1 << self.r.below(6) } else { self.r.u8(64) } & p.lim_mask;
                }
                LimP::Rel {
                    tx: self.r.u8(3),
                    mask,
                    milli: if self.r.pct(50) { 1024 } else { self.r.range(300, 1100) as u16 },
                    off: self.r.below(5) as i8 - 2,
                }
            }
        }
    }
    pub fn scenario(&mut self) -> Scenario {
        let p = self.p;
        let spec = self.r.weighted(&p.specs) as u8;
        let coinbase = if self.r.pct(p.odd_coinbase) {
            match self.r.below(4) {
                0 => Ref::E(self.r.u8(3)),
                1 => Ref::C(self.r.u8(3)),
                2 => Ref::D(self.r.u8(4)),
                _ => Ref::N(self.r.u8(3)),
            }
        } else {
            Ref::Coinbase
        };
        // a bucket thousands of times its minimal size; transactions that can pay for it
        let vast = spec % 7 > 0 && p.huge == 0 && self.r.pct(p.expanded / 8);
        let mut mults: Vec<u64> = if self.r.pct(p.expanded) {
            let n = self.r.range(1, 7);
            (0..n).map(|_| self.r.pick(&[256u64, 256, 512, 768, 1024, 300, 511, 2560])).collect()
        } else {
            vec![]
        };
        let n_or = self.r.below(4);
        let oracle = (0..n_or).map(|_| (self.slot(), if self.r.pct(5) { 1 << 63 | 1 } else { self.r.below(5) })).collect();
        let accs = self.accounts(coinbase);
        let n = self.r.range(1, p.max_txs);
        let mut txs: Vec<TxP> = (0..n).map(|_| self.tx(spec)).collect();
        if vast {
            for _ in 0..self.r.range(1, 3) {
                mults.push(self.r.pick(&[1 << 16, 1 << 20, (1 << 20) + 256, (1 << 20) + 255, 1 << 21, 1 << 24, 1 << 40]));
            }
            for t in &mut txs {
                if matches!(t.gas, GasP::Abs(_)) && self.r.pct(60) {
                    t.gas = GasP::Abs(self.r.pick(&[1 << 33, 1 << 36, 1 << 38, 1 << 40]));
                }
            }
        }
        Scenario {
            spec,
            number: if self.r.pct(5) {
                self.r.pick(&[1 << 32, (1 << 32) + 7, 1 << 40, u64::MAX >> 1])
            } else {
                self.r.range(1, 1000)
            },
            timestamp: if self.r.pct(5) { self.r.range(1, 1 << 50) } else { self.r.range(1, 1 << 32) },
            basefee: if self.r.pct(50) { self.r.u8(10) } else { 0 },
            coinbase,
            l1fee: self.r.pct(30),
            inline_code: self.r.pct(50),
            mults,
            oracle,
            accs,
            lim: self.limits(),
            txs,
            block_gas: None,
        }
    }
}
