//! The state-test runner: a test file passes exactly when everything it expects is so.
use crate::{diff::*, gen::*, mega::*, model::*, props2::*, rng::Rng, runner::*, scen::*, world::*};
use alloy_primitives::{address, keccak256, Address, Bytes, TxKind, B256, U256};
use k256::ecdsa::SigningKey;
use mega_evm::MegaSpecId;
use revm::{
    context::{BlockEnv, CfgEnv},
    context_interface::{
        either::Either,
        transaction::{AccessList, AccessListItem, Authorization, SignedAuthorization},
    },
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    sync::{atomic::{AtomicU64, Ordering}, Arc, Mutex},
    time::Duration,
};

/// In the order the runner goes through them.
const NAMES: [&str; 24] = [
    "Frontier", "FrontierToHomesteadAt5", "Homestead", "HomesteadToDaoAt5", "HomesteadToEIP150At5",
    "EIP150", "EIP158", "EIP158ToByzantiumAt5", "Byzantium", "ByzantiumToConstantinopleAt5",
    "ByzantiumToConstantinopleFixAt5", "Constantinople", "ConstantinopleFix", "Istanbul", "Berlin",
    "BerlinToLondonAt5", "London", "Paris", "Merge", "Shanghai", "Cancun", "Prague", "Osaka", "MiniRex",
];
const CONSTANTINOPLE: u8 = 11;
const MINI_REX: u8 = 23;
const VAULT: Address = address!("4200000000000000000000000000000000000019");

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TestP {
    pub d: u8,
    pub g: u8,
    pub v: u8,
    /// 0: what is expected is right; otherwise how it is not.
    pub bad: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UnitP {
    pub name: u8,
    pub sc: Scenario,
    pub chain: Option<u64>,
    pub excess: Option<u32>,
    /// Parent's blob gas used and excess, where the excess is not given.
    pub parent: Option<(u32, u32)>,
    /// The parent's target, where it is given.
    #[serde(default)]
    pub target: Option<u32>,
    pub random: Option<u64>,
    pub difficulty: u32,
    /// The sender is the address of this key.
    pub key: Option<u8>,
    /// Give `sender` along with the key (1: in place of a usable key).
    pub sender: u8,
    pub data: Vec<Inp>,
    /// An access list per data entry; with none where the flag is not set.
    pub lists: Vec<bool>,
    pub gas: Vec<GasP>,
    pub values: Vec<u64>,
    /// The transaction type is spelled out.
    pub typed: bool,
    pub blobs: u8,
    /// 0: no expected output, 1: that of the first test, 2: one that differs from it.
    pub out: u8,
    /// Zero-valued slots written into the pre state.
    pub zeros: bool,
    pub post: Vec<(u8, Vec<TestP>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SuiteCase {
    pub units: Vec<UnitP>,
    /// 0: each file on its own, 1: all files in a directory, one thread, 2: several.
    pub mode: u8,
    /// Units per file.
    pub per: u8,
    pub trace: bool,
    pub print: bool,
}

pub fn key_of(i: u8) -> (SigningKey, Address) {
    let k = SigningKey::from_slice(&[i.max(1); 32]).expect("key");
    let p = k.verifying_key().to_encoded_point(false);
    let a = Address::from_raw_public_key(&p.as_bytes()[1..]);
    (k, a)
}

pub fn hex(b: &[u8]) -> Value {
    Value::String(format!("0x{}", alloy_primitives::hex::encode(b)))
}
pub fn num(v: impl TryInto<U256>) -> Value {
    let v: U256 = v.try_into().unwrap_or_default();
    Value::String(format!("{v:#x}"))
}
pub fn h256(v: B256) -> Value {
    Value::String(v.to_string())
}

pub fn root(db: &MemDb, without: Address) -> B256 {
    use alloy_rlp::Encodable;
    use alloy_trie::{HashBuilder, Nibbles};
    let trie = |mut leaves: Vec<(B256, Vec<u8>)>| {
        leaves.sort();
        let mut h = HashBuilder::default();
        for (k, v) in leaves {
            h.add_leaf(Nibbles::unpack(k), &v);
        }
        h.root()
    };
    trie(
        db.accounts
            .iter()
            .filter(|(a, _)| **a != without)
            .map(|(a, acc)| {
                let slots = acc.storage.iter().filter(|(_, v)| !v.is_zero());
                let store = trie(
                    slots
                        .map(|(k, v)| {
                            let mut o = vec![];
                            v.encode(&mut o);
                            (keccak256(k.to_be_bytes::<32>()), o)
                        })
                        .collect(),
                );
                let mut body = vec![];
                acc.nonce.encode(&mut body);
                acc.balance.encode(&mut body);
                store.encode(&mut body);
                keccak256(&acc.code).encode(&mut body);
                let mut o = vec![];
                alloy_rlp::Header { list: true, payload_length: body.len() }.encode(&mut o);
                o.extend(body);
                (keccak256(a), o)
            })
            .collect(),
    )
}

pub fn logs_hash(logs: &[alloy_primitives::Log]) -> B256 {
    use alloy_rlp::Encodable;
    let mut body = vec![];
    for l in logs {
        let mut one = vec![];
        l.address.encode(&mut one);
        l.data.topics().to_vec().encode(&mut one);
        l.data.data.encode(&mut one);
        alloy_rlp::Header { list: true, payload_length: one.len() }.encode(&mut body);
        body.extend(one);
    }
    let mut o = vec![];
    alloy_rlp::Header { list: true, payload_length: body.len() }.encode(&mut o);
    o.extend(body);
    keccak256(o)
}

/// Excess blob gas from the parent's, as EIP-4844 has it, with Cancun's target by default.
fn excess_of(used: u64, excess: u64, target: Option<u32>) -> u64 {
    (used + excess).saturating_sub(target.map_or(393_216, |t| t as u64))
}

/// The price EIP-4844 gives: `fake_exponential(1, excess, fraction)`.
pub fn blob_price(excess: u64) -> u128 {
    let f = U256::from(3_338_477u64);
    let (mut i, mut out, mut acc) = (U256::from(1), U256::ZERO, f);
    while !acc.is_zero() {
        out += acc;
        acc = acc * U256::from(excess) / (f * i);
        i += U256::from(1);
    }
    (out / f).to()
}

/// What the runner must say about a unit: the first complaint, if any, and what was exercised.
struct Verdict {
    file: Value,
    bad: Option<&'static str>,
    tags: Vec<String>,
    tests: u64,
    heavy: bool,
}

fn unit(u: &UnitP) -> Verdict {
    let mut tags = vec![];
    let sc = &u.sc;
    let mut db = sc.db();
    db.text_hashes = true;
    let t = &sc.txs[0];
    let orig = addr(t.caller);
    let mut caller = orig;
    if let Some(k) = u.key {
        caller = key_of(k).1;
        let acc = db.accounts.get(&orig).cloned();
        if let Some(a) = acc {
            db.set(caller, a);
        }
    }
    let m = model_of(sc, spec_limits(sc.spec()));
    let gases: Vec<u64> = u
        .gas
        .iter()
        .map(|g| {
            let mut t = t.clone();
            t.gas = g.clone();
            resolve_gas(sc, &m, &db, &t)
        })
        .collect();
    let mut base = build_tx(t, &db, sc.basefee as u64, 0);
    base.base.caller = caller;
    base.base.chain_id = Some(1);
    base.enveloped_tx = Some(Bytes::new());
    if orig != caller {
        base.base.nonce = db.accounts.get(&caller).map(|a| a.nonce).unwrap_or(0).saturating_add_signed(t.nonce_delta as i64);
    }
    // authorizations signed by real keys
    let set_code = t.ty == TxT::SetCode;
    let auths: Vec<SignedAuthorization> = if set_code {
        t.auths
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let (k, who) = key_of(0x40 + (i as u8 % 3));
                let n = db.accounts.get(&who).map(|x| x.nonce).unwrap_or(0) + (i / 3) as u64;
                let inner = Authorization {
                    chain_id: U256::from(match a.chain % 4 {
                        0 => 0,
                        3 => 99,
                        _ => u.chain.unwrap_or(CHAIN_ID),
                    }),
                    address: if a.delegate == Ref::N(255) { Address::ZERO } else { addr(a.delegate) },
                    nonce: n + a.nonce_delta as u64,
                };
                let (s, v) = k.sign_prehash_recoverable(inner.signature_hash().as_slice()).expect("sign");
                let (r, s) = s.split_bytes();
                SignedAuthorization::new_unchecked(
                    inner,
                    if a.authority.is_none() { 9 } else { v.to_byte() },
                    U256::from_be_slice(&r),
                    U256::from_be_slice(&s),
                )
            })
            .collect()
    } else {
        vec![]
    };
    base.base.authorization_list = auths.iter().cloned().map(Either::Left).collect();
    let datas: Vec<Bytes> = u
        .data
        .iter()
        .enumerate()
        .map(|(i, d)| match (&t.to, i) {
            (_, 0) => base.base.data.clone(),
            (To::Call(_), _) => Bytes::from(inp_bytes(d)),
            // another constructor
            _ => Bytes::from([vec![0x5b; i], base.base.data.to_vec()].concat()),
        })
        .collect();
    let blob = u.blobs > 0 && matches!(t.ty, TxT::Dyn);
    if blob {
        base.base.tx_type = 3;
        base.base.blob_hashes = (0..u.blobs % 12).map(|i| {
            let mut h = B256::repeat_byte(i);
            h.0[0] = if u.blobs > 12 && i == 0 { 2 } else { 1 };
            h
        }).collect();
        base.base.max_fee_per_blob_gas = if u.blobs % 2 == 0 && u.typed { u128::MAX } else { 3 };
    }
    let lists = !matches!(t.ty, TxT::Legacy) || u.lists.iter().any(|x| *x);
    let the_list = if matches!(t.ty, TxT::Legacy) {
        AccessList(t.acl.iter().map(|(r, ks)| AccessListItem {
            address: addr(*r),
            storage_keys: ks.iter().map(|k| B256::from(slot_word(*k))).collect(),
        }).collect())
    } else {
        base.base.access_list.clone()
    };
    let listed = |d: usize| lists && u.lists.get(d).copied().unwrap_or(false);

    // environment
    let mut block = BlockEnv {
        number: U256::from(sc.number.max(1)),
        beneficiary: addr(sc.coinbase),
        timestamp: U256::from(sc.timestamp),
        gas_limit: sc.block_gas.unwrap_or(1 << 44),
        basefee: sc.basefee as u64,
        difficulty: U256::from(u.difficulty),
        prevrandao: Some(u.random.map(|x| B256::from(U256::from(x))).unwrap_or_default()),
        ..Default::default()
    };
    let excess = u.excess.map(|x| x as u64).or_else(|| u.parent.map(|(a, b)| excess_of(a as u64, b as u64, u.target)));
    if let Some(x) = excess {
        block.blob_excess_gas_and_price = Some(revm::context_interface::block::BlobExcessGasAndPrice {
            excess_blob_gas: x,
            blob_gasprice: blob_price(x),
        });
    }
    let mut env = json!({
        "currentCoinbase": block.beneficiary.to_string(),
        "currentGasLimit": num(block.gas_limit),
        "currentNumber": num(block.number),
        "currentTimestamp": num(block.timestamp),
        "currentBaseFee": num(block.basefee),
        "currentDifficulty": num(u.difficulty),
        "previousHash": h256(B256::repeat_byte(5)),
    });
    let e = env.as_object_mut().expect("object");
    if let Some(c) = u.chain {
        e.insert("currentChainID".into(), num(c));
    }
    if let Some(x) = u.random {
        e.insert("currentRandom".into(), num(x));
    }
    if let Some(x) = u.excess {
        e.insert("currentExcessBlobGas".into(), num(x));
    }
    if let Some((a, b)) = u.parent {
        e.insert("parentBlobGasUsed".into(), num(a));
        e.insert("parentExcessBlobGas".into(), num(b));
        if let Some(t) = u.target {
            e.insert("parentTargetBlobsPerBlock".into(), num(t));
        }
    }
    // accounts
    let mut pre = Map::new();
    for (a, acc) in &db.accounts {
        let mut st = Map::new();
        for (k, v) in &acc.storage {
            st.insert(format!("{k:#x}"), num(*v));
        }
        if u.zeros {
            st.entry("0xfe".to_string()).or_insert(num(0u64));
        }
        pre.insert(a.to_string(), json!({"balance": num(acc.balance), "nonce": num(acc.nonce), "code": hex(&acc.code), "storage": st}));
    }
    // the transaction
    let mut tx = json!({
        "data": datas.iter().map(|d| hex(d)).collect::<Vec<_>>(),
        "gasLimit": gases.iter().map(|g| num(*g)).collect::<Vec<_>>(),
        "value": u.values.iter().map(|v| num(*v)).collect::<Vec<_>>(),
        "nonce": num(base.base.nonce),
        "secretKey": h256(match u.key {
            Some(k) if u.sender != 1 => B256::repeat_byte(k.max(1)),
            _ => if u.sender & 2 != 0 { B256::ZERO } else { B256::repeat_byte(9) },
        }),
        "to": match base.base.kind { TxKind::Call(a) => a.to_string(), TxKind::Create => String::new() },
    });
    let o = tx.as_object_mut().expect("object");
    let no_sender = u.key.is_some() && u.sender == 0;
    if !no_sender {
        o.insert("sender".into(), json!(caller.to_string()));
    }
    match t.ty {
        TxT::Dyn | TxT::SetCode => {
            o.insert("maxFeePerGas".into(), num(base.base.gas_price));
            o.insert("maxPriorityFeePerGas".into(), num(base.base.gas_priority_fee.unwrap_or(0)));
        }
        _ => {
            o.insert("gasPrice".into(), num(base.base.gas_price));
        }
    }
    if lists {
        o.insert("accessLists".into(), Value::Array((0..datas.len()).map(|d| {
            if listed(d) { serde_json::to_value(&the_list).expect("list") } else { Value::Null }
        }).collect()));
    }
    if set_code {
        o.insert("authorizationList".into(), Value::Array(auths.iter().map(|a| {
            let mut v = serde_json::to_value(a).expect("authorization");
            if a.y_parity() == 1 {
                v["v"] = v["yParity"].clone();
            }
            v
        }).collect()));
    }
    if blob {
        o.insert("blobVersionedHashes".into(), json!(base.base.blob_hashes));
        if base.base.max_fee_per_blob_gas != u128::MAX {
            o.insert("maxFeePerBlobGas".into(), num(base.base.max_fee_per_blob_gas));
        }
    }
    let blob_by_type = blob && base.base.max_fee_per_blob_gas == u128::MAX;
    let typed = (u.typed && !u.lists.iter().any(|x| *x)) || blob_by_type || (u.typed && !matches!(t.ty, TxT::Legacy | TxT::Acl));
    if typed {
        o.insert("type".into(), json!(base.base.tx_type));
    }
    // blob and set-code transactions must have a target for their type to be recognised
    let no_type = !typed && (set_code || blob) && base.base.kind.is_create();

    let mut posts: BTreeMap<u8, Vec<&TestP>> = BTreeMap::new();
    for (s, ts) in &u.post {
        posts.entry(s % 24).or_default().extend(ts);
    }
    let mut post = Map::new();
    let mut bad = None;
    let mut out: Option<Bytes> = None;
    let mut outs: Vec<(u8, usize, Option<Bytes>)> = vec![];
    let mut kinds: Vec<(u8, usize, Option<&'static str>, bool)> = vec![];
    let mut n = 0;
    for (s, ts) in &posts {
        let mut list = vec![];
        for (i, tp) in ts.iter().enumerate() {
            let (d, g, v) = (tp.d as usize % datas.len(), tp.g as usize % gases.len(), tp.v as usize % u.values.len());
            let mut entry = json!({"indexes": {"data": d, "gas": g, "value": v}, "txbytes": "0x01"});
            if *s == CONSTANTINOPLE {
                entry["hash"] = h256(B256::ZERO);
                entry["logs"] = h256(B256::ZERO);
                list.push(entry);
                continue;
            }
            n += 1;
            let spec = if *s == MINI_REX { MegaSpecId::MINI_REX } else { MegaSpecId::EQUIVALENCE };
            let mut x = base.clone();
            x.base.data = datas[d].clone();
            x.base.gas_limit = gases[g];
            x.base.value = U256::from(u.values[v]);
            x.base.access_list = if listed(d) { the_list.clone() } else { Default::default() };
            if !typed && matches!(t.ty, TxT::Legacy | TxT::Acl) {
                x.base.tx_type = listed(d) as u8;
            }
            let mut one = sc.clone();
            one.spec = (*s == MINI_REX) as u8;
            let mut cfg: CfgEnv<MegaSpecId> = cfg_of(spec);
            cfg.chain_id = u.chain.unwrap_or(CHAIN_ID);
            cfg.set_max_blobs_per_tx(9);
            let m = model_of(&one, spec_limits(spec));
            let e = expect_in(&m, &db, x, &block, &cfg);
            if e.facts.steps > STEP_CAP {
                return Verdict { file: Value::Null, bad: None, tags: vec![], tests: 0, heavy: true };
            }
            let mut after = db.clone();
            let mut fail: Option<&'static str> = None;
            let (mut rejected, mut logs, mut output) = (true, vec![], None);
            match &e.obs.res {
                Ok(r) if !no_type => {
                    rejected = false;
                    after.apply(&e.obs.state);
                    logs = r.logs.clone();
                    if !r.kind.starts_with("halt") {
                        output = Some(r.output.clone());
                    }
                    tags.push(format!("test:{}", r.kind.split('(').next().unwrap_or("")));
                }
                _ => tags.push(if no_type { "test:no type".into() } else { "test:rejected".into() }),
            }
            let right = root(&after, VAULT);
            let mut hash = right;
            let mut lh = logs_hash(&logs);
            let mut exception = rejected;
            match tp.bad {
                1 => hash.0[tp.d as usize % 32] ^= 1 << (tp.g % 8),
                2 => lh.0[tp.d as usize % 32] ^= 1 << (tp.g % 8),
                3 => exception = !exception,
                4..=7 => {
                    // a state that differs in one field of one account
                    let all: Vec<Address> = after.accounts.keys().copied().filter(|a| *a != VAULT).collect();
                    let a = all[(tp.d as usize * 31 + tp.v as usize) % all.len()];
                    let acc = after.accounts.get_mut(&a).expect("account");
                    match tp.bad {
                        4 => acc.balance ^= U256::from(1),
                        5 => acc.nonce ^= 1,
                        6 => {
                            let k = acc.storage.keys().next().copied().unwrap_or_default();
                            let v = acc.storage.entry(k).or_default();
                            *v += U256::from(1);
                        }
                        _ => acc.code = Bytes::from([acc.code.to_vec(), vec![0]].concat()),
                    }
                    hash = root(&after, VAULT);
                }
                8 => {
                    if logs.pop().is_none() {
                        logs.push(alloy_primitives::Log::new_unchecked(caller, vec![], Bytes::new()));
                    }
                    lh = logs_hash(&logs);
                }
                _ => {}
            }
            if rejected {
                // nothing else is looked at
                if tp.bad == 0 {
                    hash = B256::ZERO;
                }
                if !exception {
                    fail = Some(if no_type { "key" } else { "exception" });
                }
            } else if exception {
                fail = Some("exception");
            } else if lh != logs_hash(&e.obs.res.as_ref().expect("result").logs) {
                fail = Some("logs");
            } else if hash != right {
                fail = Some("root");
            }
            if exception {
                entry["expectException"] = json!("TR_Something");
            }
            entry["hash"] = h256(hash);
            entry["logs"] = h256(lh);
            list.push(entry);
            outs.push((*s, i, output));
            kinds.push((*s, i, fail, rejected || exception));
        }
        post.insert(NAMES[*s as usize].into(), Value::Array(list));
    }
    if u.out > 0 {
        out = outs.iter().find_map(|o| o.2.clone());
        if u.out == 2 {
            if let Some(o) = &mut out {
                *o = if o.is_empty() { Bytes::from(vec![0]) } else { o.slice(..o.len() - 1) };
            }
        }
    }
    for ((_, _, fail, exc), (_, _, got)) in kinds.iter().zip(&outs) {
        let f = match (&out, got) {
            (Some(a), Some(b)) if a != b && !exc => Some("output"),
            _ => *fail,
        };
        if f.is_some() {
            bad = f;
            break;
        }
    }
    if let Some(b) = bad {
        tags.push(format!("wrong:{b}"));
    }
    let mut file = json!({"env": env, "pre": pre, "post": post, "transaction": tx, "_info": {"comment": "generated"}});
    if let Some(o) = out {
        file["out"] = hex(&o);
    }
    Verdict { file, bad, tags, tests: n, heavy: false }
}

fn kind_of(k: &state_test::runner::TestErrorKind) -> String {
    use state_test::runner::TestErrorKind as K;
    match k {
        K::LogsRootMismatch { .. } => "logs".into(),
        K::StateRootMismatch { .. } => "root".into(),
        K::UnknownPrivateKey(_) => "key".into(),
        K::UnexpectedException { .. } => "exception".into(),
        K::UnexpectedOutput { .. } => "output".into(),
        k => format!("{k:?}"),
    }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let shm = PathBuf::from("/dev/shm");
        let base = if shm.is_dir() { shm } else { std::env::temp_dir() };
        let p = base.join(format!("megafuzz-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(p.join("sub")).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct StateTest;

impl Prop for StateTest {
    type In = SuiteCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn gen(&self, r: &mut Rng) -> SuiteCase {
        let n = r.pick(&[1u64, 1, 1, 2, 3]);
        let mut p = Profile { specs: [1, 1, 0, 0, 0, 0, 0], ..Default::default() };
        p.ty = [4, 2, 3, 3, 0];
        p.lim = [1, 0, 0, 0];
        p.expanded = 0;
        p.max_txs = 1;
        p.stmts = 5;
        p.bad = 8;
        p.w.log = 6;
        let mut units = vec![];
        for i in 0..n {
            let mut g = G { r, p: &p };
            let mut sc = g.scenario();
            sc.mults.clear();
            sc.oracle.clear();
            sc.lim = LimP::Default;
            sc.txs.truncate(1);
            for a in &mut sc.accs {
                if let (Code::Prog(p), true) = (&mut a.code, g.r.pct(30)) {
                    let k = g.r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 6, 6, 8, 9]);
                    p.insert(0, Stmt::SStore(g.r.u8(4), Val::Env(k)));
                }
            }
            let t = sc.txs[0].clone();
            let mut data = vec![t.input.clone()];
            let mut gas = vec![t.gas.clone()];
            let mut values = vec![t.value];
            while g.r.pct(40) && data.len() < 4 {
                let k = g.r.below(40) as usize;
                data.push(Inp::Data(g.r.bytes(k)));
            }
            while g.r.pct(40) && gas.len() < 4 {
                gas.push(g.r.pick(&[GasP::Abs(100_000), GasP::Off(0), GasP::Off(-1), GasP::Rel(700), GasP::Abs(1_000_000), GasP::Abs(5_000_000)]));
            }
            while g.r.pct(40) && values.len() < 4 {
                values.push(g.r.below(1000));
            }
            let r = &mut *g.r;
            let lists = match t.ty {
                TxT::Legacy => (0..data.len()).map(|_| r.pct(25)).collect(),
                TxT::Acl => vec![true; data.len()],
                _ => (0..data.len()).map(|_| r.pct(80)).collect(),
            };
            let mut post = vec![];
            let n_specs = r.range(1, 3);
            for j in 0..n_specs {
                let s = if j == 0 && sc.spec == 1 || r.pct(40) { MINI_REX } else if r.pct(8) { CONSTANTINOPLE } else { r.u8(23) };
                let ts = (0..r.range(1, 3)).map(|_| TestP {
                    d: r.u8(60),
                    g: r.u8(60),
                    v: r.u8(60),
                    bad: if r.pct(6) { r.range(1, 8) as u8 } else { 0 },
                }).collect();
                post.push((s, ts));
            }
            units.push(UnitP {
                name: i as u8 * 3 + r.u8(3),
                sc,
                chain: if r.pct(30) { Some(r.pick(&[1u64, 6342, 9, 77_000])) } else { None },
                excess: if r.pct(20) { Some(r.log(40_000_000) as u32) } else { None },
                parent: if r.pct(30) { Some((r.log(1_200_000) as u32, if r.pct(50) { r.log(20_000_000) as u32 } else { r.range(5_000_000, 60_000_000) as u32 })) } else { None },
                target: if r.pct(25) { Some(r.log(2_000_000) as u32) } else { None },
                random: if r.pct(60) { Some(r.next()) } else { None },
                difficulty: r.u8(200) as u32 * 5,
                key: if r.pct(35) { Some(r.range(1, 60) as u8) } else { None },
                sender: r.weighted(&[4, 1, 2, 1]) as u8,
                data,
                lists,
                gas,
                values,
                typed: r.pct(25),
                blobs: if r.pct(15) { r.range(1, 22) as u8 } else { 0 },
                out: r.weighted(&[6, 3, 1]) as u8,
                zeros: r.pct(20),
                post,
            });
        }
        SuiteCase { units, mode: r.weighted(&[6, 2, 2]) as u8, per: r.range(1, 3) as u8, trace: r.pct(5), print: r.pct(10) }
    }
    fn check(&self, c: &SuiteCase) -> Outcome {
        let mut pass = Pass::default();
        let mut files: Vec<(String, Map<String, Value>, BTreeMap<String, Option<&'static str>>)> = vec![];
        for (i, chunk) in c.units.chunks(c.per.max(1) as usize).enumerate() {
            let (mut m, mut want) = (Map::new(), BTreeMap::new());
            for u in chunk {
                let v = unit(u);
                if v.heavy {
                    tag(&mut pass, "not judged: too long");
                    return Ok(pass);
                }
                for t in &v.tags {
                    tag(&mut pass, t);
                }
                pass.evals += v.tests;
                let name = format!("unit{}", u.name);
                m.insert(name.clone(), v.file);
                want.insert(name, v.bad);
            }
            files.push((format!("f{i}.json"), m, want));
        }
        pass.evals = pass.evals.saturating_sub(1);
        pass.nontrivial = pass.tags.keys().any(|k| k == "test:success" || k == "test:revert" || k == "test:halt");
        let dir = Scratch::new();
        let mut wants: BTreeMap<PathBuf, Option<(String, &'static str)>> = BTreeMap::new();
        for (i, (name, m, want)) in files.iter().enumerate() {
            let p = if i % 2 == 1 { dir.0.join("sub").join(name) } else { dir.0.join(name) };
            std::fs::write(&p, serde_json::to_string(m).expect("json")).expect("write");
            wants.insert(p, want.iter().find_map(|(n, b)| b.map(|b| (n.clone(), b))));
        }
        let elapsed = Arc::new(Mutex::new(Duration::ZERO));
        if c.mode == 0 {
            for (p, want) in &wants {
                let got = state_test::runner::execute_test_suite(p, &elapsed, c.trace, c.print)
                    .err()
                    .map(|e| (e.name, kind_of(&e.kind)));
                let want = want.as_ref().map(|(n, k)| (n.clone(), k.to_string()));
                if got != want {
                    return Err(Fail::new("verdict", format!("{}: expected {want:?}, got {got:?}", name_of(p))));
                }
            }
            return Ok(pass);
        }
        tag(&mut pass, "directory");
        // not a test, a test the runner leaves out, and what it finds
        std::fs::write(dir.0.join("notes.txt"), "{").expect("write");
        let skip = dir.0.join("CreateTransactionHighNonce.json");
        std::fs::write(&skip, "{").expect("write");
        let found: BTreeSet<PathBuf> = state_test::runner::find_all_json_tests(&dir.0).into_iter().collect();
        let mut all: BTreeSet<PathBuf> = wants.keys().cloned().collect();
        all.insert(skip);
        if found != all {
            return Err(Fail::new("files", format!("expected {all:?}, found {found:?}")));
        }
        let got = state_test::runner::run(found.into_iter().collect(), c.mode == 1, c.trace, c.print, false);
        let bad: Vec<(String, String)> = wants.iter().filter_map(|(p, w)| w.as_ref().map(|(n, k)| (format!("{} {n}", p.display()), k.to_string()))).collect();
        match got {
            Ok(()) if bad.is_empty() => {}
            Err(e) if bad.contains(&(format!("{} {}", e.path, e.name), kind_of(&e.kind))) => {}
            got => return Err(Fail::new("verdict", format!("expected one of {bad:?}, got {:?}", got.map_err(|e| (e.path, e.name, kind_of(&e.kind)))))),
        }
        Ok(pass)
    }
    fn budget(&self) -> (u64, u64) {
        (30_000, 900_000)
    }
    fn rule(&self) -> &'static str {
        "Generated state-test files: 1-3 units per case, each a generated world and transaction (legacy, access list, dynamic fee, blob, set code; sender given or from its key; several data, gas and value entries, some wrong on purpose), run under 1-3 forks with 1-3 tests each, expectations from the reference model with independently computed roots, a few falsified; one file at a time or a directory through the multi-threaded runner. Non-trivial: at least one test executes its transaction."
    }
}

fn name_of(p: &Path) -> String {
    p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default()
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(StateTest)]
}
