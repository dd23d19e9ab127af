//! The state transition tool: its outputs are those of executing the transactions in order.
use crate::{diff::*, gen::*, mega::*, model::*, props2::*, props7::*, rng::Rng, runner::*, scen::*, world::*};
use alloy_primitives::{keccak256, Address, Bytes, TxKind, B256, U256};
use alloy_rlp::Encodable;
use mega_evm::MegaTransaction;
use revm::{
    context::{BlockEnv, CfgEnv},
    context_interface::{
        either::Either,
        transaction::{Authorization, SignedAuthorization},
    },
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::{
    collections::BTreeMap,
    io::Write,
    path::Path,
    process::{Command, Stdio},
};

const NAMES: [&str; 7] = ["Equivalence", "MiniRex", "Rex", "Rex1", "Rex2", "Rex3", "Rex4"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ToolTx {
    /// Without a key the transaction has no sender.
    pub key: bool,
    /// Whether a legacy transaction names its chain.
    pub chain: bool,
    /// Parity of the signature.
    pub odd: bool,
    pub r: u64,
    /// Leaves fields that are not needed out, rather than null.
    pub terse: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ToolCase {
    pub sc: Scenario,
    pub txs: Vec<ToolTx>,
    pub chain: u64,
    pub excess: Option<u32>,
    pub random: Option<u64>,
    pub base_fee: bool,
    pub difficulty: u32,
    /// 0: everything by standard input; 1: by files; 2: as 1, in two runs, the second from the first's output.
    pub mode: u8,
    pub cut: u8,
    /// Whether a transaction of a kind the tool does not know is among them.
    pub unknown: Option<u8>,
}

fn rlp_list(fields: &[&dyn Encodable]) -> Vec<u8> {
    let mut body = vec![];
    for f in fields {
        f.encode(&mut body);
    }
    let mut o = vec![];
    alloy_rlp::Header { list: true, payload_length: body.len() }.encode(&mut o);
    o.extend(body);
    o
}
struct Raw(Vec<u8>);
impl Encodable for Raw {
    fn encode(&self, out: &mut dyn alloy_rlp::BufMut) {
        out.put_slice(&self.0)
    }
}

/// The hash of a signed transaction, from the encoding of its kind.
fn tx_hash(tx: &MegaTransaction, chain: Option<u64>, odd: bool, r: U256, s: U256, auths: &[SignedAuthorization]) -> B256 {
    let b = &tx.base;
    let to: Bytes = match b.kind {
        TxKind::Call(a) => Bytes::copy_from_slice(a.as_slice()),
        TxKind::Create => Bytes::new(),
    };
    let list = {
        let items: Vec<Raw> = b
            .access_list
            .0
            .iter()
            .map(|i| {
                let keys: Vec<&dyn Encodable> = i.storage_keys.iter().map(|k| k as &dyn Encodable).collect();
                Raw(rlp_list(&[&i.address, &Raw(rlp_list(&keys))]))
            })
            .collect();
        Raw(rlp_list(&items.iter().map(|x| x as &dyn Encodable).collect::<Vec<_>>()))
    };
    let auths = {
        let items: Vec<Raw> = auths
            .iter()
            .map(|a| Raw(rlp_list(&[a.chain_id(), a.address(), &a.nonce(), &a.y_parity(), &a.r(), &a.s()])))
            .collect();
        Raw(rlp_list(&items.iter().map(|x| x as &dyn Encodable).collect::<Vec<_>>()))
    };
    let tip = b.gas_priority_fee.unwrap_or(0);
    let c = chain.unwrap_or(0);
    let y = odd as u64;
    let mut out = vec![];
    match b.tx_type {
        0 => {
            let v: u128 = match chain {
                Some(c) => c as u128 * 2 + 35 + y as u128,
                None => 27 + y as u128,
            };
            out = rlp_list(&[&b.nonce, &b.gas_price, &b.gas_limit, &to, &b.value, &b.data, &v, &r, &s]);
        }
        1 => {
            out.push(1);
            out.extend(rlp_list(&[&c, &b.nonce, &b.gas_price, &b.gas_limit, &to, &b.value, &b.data, &list, &y, &r, &s]));
        }
        2 => {
            out.push(2);
            out.extend(rlp_list(&[&c, &b.nonce, &tip, &b.gas_price, &b.gas_limit, &to, &b.value, &b.data, &list, &y, &r, &s]));
        }
        _ => {
            out.push(4);
            out.extend(rlp_list(&[&c, &b.nonce, &tip, &b.gas_price, &b.gas_limit, &to, &b.value, &b.data, &list, &auths, &y, &r, &s]));
        }
    }
    keccak256(out)
}

fn bloom(logs: &[alloy_primitives::Log]) -> Vec<u8> {
    let mut b = vec![0u8; 256];
    let mut add = |x: &[u8]| {
        let h = keccak256(x);
        for i in [0, 2, 4] {
            let bit = u16::from_be_bytes([h[i], h[i + 1]]) as usize & 0x7ff;
            b[255 - bit / 8] |= 1 << (bit % 8);
        }
    };
    for l in logs {
        add(l.address.as_slice());
        for t in l.data.topics() {
            add(t.as_slice());
        }
    }
    b
}

fn u256(v: &Value) -> Option<U256> {
    match v {
        Value::String(s) => s.parse().ok(),
        Value::Number(n) => n.as_u64().map(U256::from),
        _ => None,
    }
}
fn bytes(v: &Value) -> Option<Bytes> {
    v.as_str().and_then(|s| s.parse().ok())
}

type Alloc = BTreeMap<Address, (U256, u64, Bytes, BTreeMap<U256, U256>)>;

fn alloc_of(v: &Value) -> Option<Alloc> {
    let mut out = Alloc::new();
    for (a, x) in v.as_object()? {
        let st = x.get("storage")?.as_object()?.iter().map(|(k, v)| Some((k.parse::<U256>().ok()?, u256(v)?)));
        let st = st.collect::<Option<BTreeMap<_, _>>>()?.into_iter().filter(|(_, v)| !v.is_zero()).collect();
        out.insert(a.parse().ok()?, (u256(x.get("balance")?)?, u256(x.get("nonce")?)?.try_into().ok()?, bytes(x.get("code")?)?, st));
    }
    Some(out)
}
fn alloc_db(db: &MemDb) -> Alloc {
    db.accounts
        .iter()
        .map(|(a, x)| {
            let st = x.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (*k, *v)).collect();
            (*a, (x.balance, x.nonce, x.code.clone(), st))
        })
        .collect()
}
fn alloc_json(db: &MemDb) -> Value {
    let mut pre = Map::new();
    for (a, acc) in &db.accounts {
        let st: Map<String, Value> = acc.storage.iter().map(|(k, v)| (format!("{k:#x}"), num(*v))).collect();
        pre.insert(a.to_string(), json!({"balance": num(acc.balance), "nonce": num(acc.nonce), "code": hex(&acc.code), "storage": st}));
    }
    Value::Object(pre)
}

struct Ran {
    code: Option<i32>,
    out: Value,
    err: String,
}

fn run_tool(c: &ToolCase, dir: &Path, alloc: &Value, env: &Value, txs: &[Value], files: bool) -> Ran {
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = Command::new(exe);
    cmd.arg("t8n")
        .args(["--state.fork", NAMES[c.sc.spec as usize % 7]])
        .args(["--state.chainid", &c.chain.to_string()])
        .arg("--output.basedir")
        .arg(dir.join("out/deep"))
        .current_dir(dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if files {
        for (n, v) in [("alloc", alloc.clone()), ("env", env.clone()), ("txs", Value::Array(txs.to_vec()))] {
            let p = dir.join(format!("in-{n}.json"));
            std::fs::write(&p, v.to_string()).expect("write");
            cmd.arg(format!("--input.{n}")).arg(p);
        }
    } else {
        cmd.args(["--output.alloc", "stdout", "--output.result", "stdout"]);
    }
    let mut ch = cmd.spawn().expect("tool");
    let mut stdin = ch.stdin.take().expect("pipe");
    if !files {
        let all = json!({"alloc": alloc, "env": env, "txs": txs}).to_string();
        let _ = stdin.write_all(all.as_bytes());
    }
    drop(stdin);
    let o = ch.wait_with_output().expect("tool");
    let err = String::from_utf8_lossy(&o.stderr).chars().take(600).collect();
    Ran { code: o.status.code(), out: serde_json::from_slice(&o.stdout).unwrap_or(Value::Null), err }
}

pub struct Tool;

impl Prop for Tool {
    type In = ToolCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn gen(&self, r: &mut Rng) -> ToolCase {
        let mut p = Profile::default();
        p.ty = [4, 2, 3, 3, 0];
        p.lim = [1, 0, 0, 0];
        p.expanded = 0;
        p.max_txs = r.range(1, 5);
        p.stmts = 5;
        p.bad = 8;
        p.w.log = 6;
        let mut g = G { r, p: &p };
        let mut sc = g.scenario();
        g.some_keyless(&mut sc, 5);
        sc.mults.clear();
        sc.oracle.clear();
        sc.lim = LimP::Default;
        // the gas prices of the tool's input format are 64-bit
        for t in &mut sc.txs {
            t.fee = t.fee.min(199);
            t.tip = t.tip.min(199);
        }
        let txs = sc
            .txs
            .iter()
            .map(|_| ToolTx { key: r.pct(94), chain: r.pct(80), odd: r.pct(50), r: r.next() | 1, terse: r.pct(50) })
            .collect();
        ToolCase {
            sc,
            txs,
            chain: r.pick(&[6342u64, 6342, 1, 4326, 0, 1 << 40]),
            excess: if r.pct(94) { Some(r.log(40_000_000) as u32) } else { None },
            random: if r.pct(94) { Some(r.next()) } else { None },
            base_fee: r.pct(90),
            difficulty: r.u8(200) as u32 * 5,
            mode: r.weighted(&[4, 4, 3]) as u8,
            cut: r.u8(5),
            unknown: if r.pct(3) { Some(r.u8(40)) } else { None },
        }
    }
    fn check(&self, c: &ToolCase) -> Outcome {
        let mut pass = Pass::default();
        let sc = &c.sc;
        let mut db = sc.db();
        db.text_hashes = true;
        // senders have keys: each takes over the account of the sender the scenario names
        let mut keys: BTreeMap<Address, u8> = BTreeMap::new();
        for t in &sc.txs {
            let a = addr(t.caller);
            let n = 0x60 + keys.len() as u8;
            if let std::collections::btree_map::Entry::Vacant(e) = keys.entry(a) {
                e.insert(n);
                if let Some(acc) = db.accounts.get(&a).cloned() {
                    db.set(key_of(n).1, acc);
                }
            }
        }
        let spec = sc.spec();
        let mut cfg: CfgEnv<mega_evm::MegaSpecId> = cfg_of(spec);
        cfg.chain_id = c.chain;
        let base_fee = if c.base_fee { sc.basefee as u64 } else { 0 };
        let block = BlockEnv {
            number: U256::from(sc.number.max(1)),
            beneficiary: addr(sc.coinbase),
            timestamp: U256::from(sc.timestamp),
            gas_limit: sc.block_gas.unwrap_or(1 << 44),
            basefee: base_fee,
            difficulty: U256::from(c.difficulty),
            prevrandao: c.random.map(|x| B256::from(U256::from(x))),
            blob_excess_gas_and_price: c.excess.map(|x| revm::context_interface::block::BlobExcessGasAndPrice {
                excess_blob_gas: x as u64,
                blob_gasprice: blob_price(x as u64),
            }),
        };
        let mut env = json!({
            "currentCoinbase": block.beneficiary.to_string(),
            "currentGasLimit": num(block.gas_limit),
            "currentNumber": num(block.number),
            "currentTimestamp": num(block.timestamp),
            "currentDifficulty": num(c.difficulty),
        });
        if c.base_fee {
            env["currentBaseFee"] = num(base_fee);
        }
        if let Some(x) = c.random {
            env["currentRandom"] = num(x);
        }
        if let Some(x) = c.excess {
            env["currentExcessBlobGas"] = num(x);
        }
        let pre = alloc_json(&db);
        // what must come out
        let m = model_of(sc, spec_limits(spec));
        let mut txs = vec![];
        let mut receipts = vec![];
        let mut rejected = vec![];
        let mut logs = vec![];
        let mut total = 0u64;
        let mut at_cut = (0, vec![], 0usize);
        let cut = c.cut as usize % (sc.txs.len() + 1);
        for (i, (t, k)) in sc.txs.iter().zip(&c.txs).enumerate() {
            if i == cut {
                at_cut = (total, logs.clone(), rejected.len());
            }
            let key = keys[&addr(t.caller)];
            let caller = key_of(key).1;
            let gas = resolve_gas(sc, &m, &db, t);
            let mut tx = build_tx(t, &db, base_fee, gas);
            tx.base.caller = caller;
            tx.base.nonce = db.accounts.get(&caller).map(|a| a.nonce).unwrap_or(0).saturating_add_signed(t.nonce_delta as i64);
            tx.enveloped_tx = Some(Bytes::new());
            if tx.base.tx_type == 4 && tx.base.kind.is_create() {
                tx.base.kind = TxKind::Call(caller);
            }
            let legacy = tx.base.tx_type == 0;
            let chain = (!legacy || k.chain).then_some(c.chain);
            tx.base.chain_id = chain;
            let auths: Vec<SignedAuthorization> = if tx.base.tx_type == 4 {
                t.auths
                    .iter()
                    .enumerate()
                    .map(|(i, a)| {
                        let (k, who) = key_of(0x40 + (i as u8 % 3));
                        let n = db.accounts.get(&who).map(|x| x.nonce).unwrap_or(0) + (i / 3) as u64;
                        let inner = Authorization {
                            chain_id: U256::from(match a.chain % 4 {
                                0 => 0,
                                3 => 99,
                                _ => c.chain,
                            }),
                            address: if a.delegate == Ref::N(255) { Address::ZERO } else { addr(a.delegate) },
                            nonce: n + a.nonce_delta as u64,
                        };
                        let (s, v) = k.sign_prehash_recoverable(inner.signature_hash().as_slice()).expect("sign");
                        let (r, s) = s.split_bytes();
                        SignedAuthorization::new_unchecked(
                            inner,
                            if a.authority.is_none() { 9 } else { v.to_byte() },
                            U256::from_be_slice(&r),
                            U256::from_be_slice(&s),
                        )
                    })
                    .collect()
            } else {
                vec![]
            };
            tx.base.authorization_list = auths.iter().cloned().map(Either::Left).collect();
            let (r, s) = (U256::from(k.r), U256::from(k.r ^ 0xff00));
            let v = match (legacy, chain) {
                (true, Some(c)) => c as u128 * 2 + 35 + k.odd as u128,
                (true, None) => 27 + k.odd as u128,
                _ => k.odd as u128,
            };
            let hash = tx_hash(&tx, chain, k.odd, r, s, &auths);
            let b = &tx.base;
            let mut j = json!({
                "nonce": num(b.nonce),
                "gas": num(b.gas_limit),
                "value": num(b.value),
                "gasPrice": Value::Null,
                "v": num(v), "r": num(r), "s": num(s),
            });
            let o = j.as_object_mut().expect("object");
            o.insert(if k.r & 2 == 0 { "input" } else { "data" }.into(), hex(&b.data));
            if !(legacy && k.terse) {
                o.insert("type".into(), num(b.tx_type));
            }
            match b.kind {
                TxKind::Call(a) => {
                    o.insert("to".into(), json!(a.to_string()));
                }
                TxKind::Create if !k.terse => {
                    o.insert("to".into(), Value::Null);
                }
                _ => {}
            }
            if let Some(c) = chain {
                o.insert("chainId".into(), num(c));
            }
            if b.tx_type < 2 {
                o.insert("gasPrice".into(), num(b.gas_price));
            } else {
                o.insert("gasFeeCap".into(), num(b.gas_price));
                o.insert("gasTipCap".into(), num(b.gas_priority_fee.unwrap_or(0)));
            }
            if !legacy && !(b.access_list.0.is_empty() && k.terse) {
                o.insert("accessList".into(), serde_json::to_value(&b.access_list).expect("list"));
            }
            if b.tx_type == 4 {
                o.insert("authorizationList".into(), serde_json::to_value(&auths).expect("authorizations"));
            }
            if k.key {
                o.insert("secretKey".into(), h256(B256::repeat_byte(key)));
            }
            txs.push(j);
            let res = if k.key {
                // the tool has a machine of its own for every transaction
                let m = model_of(sc, spec_limits(spec));
                let e = expect_in(&m, &db, tx.clone(), &block, &cfg);
                if e.facts.steps > STEP_CAP {
                    tag(&mut pass, "not judged: too long");
                    return Ok(pass);
                }
                e.obs.res.map(|r| (r, e.obs.state))
            } else {
                Err("no key".into())
            };
            pass.evals += 1;
            match res {
                Ok((r, state)) => {
                    db.apply(&state);
                    total += r.gas_used;
                    let own = if r.kind.starts_with("success") { r.logs.clone() } else { vec![] };
                    tag(&mut pass, &format!("tx:{}", r.kind.split('(').next().unwrap_or("")));
                    pass.nontrivial = true;
                    logs.extend(own.clone());
                    receipts.push((hash, r.kind.starts_with("success") as u64, r.gas_used, total, own, i));
                }
                Err(_) => {
                    tag(&mut pass, "tx:rejected");
                    rejected.push(i as u64);
                    receipts.push((hash, 0, 0, total, vec![], i));
                }
            }
        }
        if cut == sc.txs.len() {
            at_cut = (total, logs.clone(), rejected.len());
        }
        let dir = Scratch::new();
        if let Some(u) = c.unknown {
            // a kind the tool cannot handle makes it fail as a whole, whatever comes before
            let mut bad = txs.clone();
            let at = u as usize % bad.len();
            bad[at]["type"] = num(if u % 2 == 0 { 3u64 } else { 7 });
            let ran = run_tool(c, &dir.0, &pre, &env, &bad, c.mode != 0);
            tag(&mut pass, "unknown kind");
            if ran.code != Some(1) || dir.0.join("out").exists() || !ran.out.is_null() {
                return Err(Fail::new("unknown kind", format!("exit {:?}, {}", ran.code, ran.err)));
            }
            return Ok(pass);
        }
        let want = alloc_db(&db);
        let ran;
        let (mut from, mut base) = (0, (0u64, vec![], 0usize));
        if c.mode == 2 {
            tag(&mut pass, "two runs");
            let first = run_tool(c, &dir.0, &pre, &env, &txs[..cut], false);
            if first.code != Some(0) {
                return Err(Fail::new("tool fails", format!("exit {:?}: {}", first.code, first.err)));
            }
            ran = run_tool(c, &dir.0, &first.out["alloc"], &env, &txs[cut..], true);
            (from, base) = (cut, at_cut);
        } else {
            ran = run_tool(c, &dir.0, &pre, &env, &txs, c.mode == 1);
        }
        if ran.code != Some(0) {
            return Err(Fail::new("tool fails", format!("exit {:?}: {}", ran.code, ran.err)));
        }
        let res = &ran.out["result"];
        let bad = |what: &str, want: String, got: String| Err(Fail::new(what, format!("expected {want}, got {got}")));
        let Some(got) = alloc_of(&ran.out["alloc"]) else {
            return bad("alloc", "accounts".into(), ran.out["alloc"].to_string());
        };
        if got != want {
            for a in want.keys().chain(got.keys()) {
                if want.get(a) != got.get(a) {
                    return bad("alloc", format!("{a}: {:?}", want.get(a)), format!("{:?}", got.get(a)));
                }
            }
        }
        let logs = &logs[base.1.len()..];
        let fields: Vec<(&str, Value)> = vec![
            ("stateRoot", h256(root(&db, Address::repeat_byte(0xee)))),
            ("logsHash", h256(logs_hash(logs))),
            ("logsBloom", hex(&bloom(logs))),
        ];
        for (n, v) in fields {
            if bytes(&v) != bytes(&res[n]) {
                return bad(n, v.to_string(), res[n].to_string());
            }
        }
        let fields = [("gasUsed", U256::from(total - base.0)), ("currentBaseFee", U256::from(base_fee)), ("currentDifficulty", U256::from(c.difficulty))];
        for (n, v) in fields {
            if Some(v) != u256(&res[n]) {
                return bad(n, v.to_string(), res[n].to_string());
            }
        }
        let want_rej: Vec<Option<U256>> = rejected[base.2..].iter().map(|i| Some(U256::from(i - from as u64))).collect();
        let got_rej: Vec<Option<U256>> = res["rejected"].as_array().map(|a| a.iter().map(|x| u256(&x["index"])).collect()).unwrap_or_default();
        if want_rej != got_rej {
            return bad("rejected", format!("{want_rej:?}"), res["rejected"].to_string());
        }
        let none = vec![];
        let got = res["receipts"].as_array().unwrap_or(&none);
        let want = &receipts[from..];
        if got.len() != want.len() {
            return bad("receipts", format!("{}", want.len()), format!("{}", got.len()));
        }
        for ((hash, status, used, cumulative, logs, i), g) in want.iter().zip(got) {
            let i = (*i - from) as u64;
            let nums = [("status", *status), ("gasUsed", *used), ("cumulativeGasUsed", *cumulative - base.0)];
            for (n, v) in nums {
                if Some(U256::from(v)) != u256(&g[n]) {
                    return bad(&format!("receipt {n}"), format!("{v} (transaction {i})"), g[n].to_string());
                }
            }
            let h = Some(Bytes::copy_from_slice(hash.as_slice()));
            if bytes(&g["transactionHash"]) != h {
                return bad("transaction hash", format!("{hash} (transaction {i})"), g["transactionHash"].to_string());
            }
            let ls = g["logs"].as_array().unwrap_or(&none);
            let same = ls.len() == logs.len()
                && ls.iter().zip(logs).all(|(g, l)| {
                    bytes(&g["address"]).is_some_and(|a| a[..] == l.address[..])
                        && bytes(&g["data"]).is_some_and(|d| d == l.data.data)
                        && g["topics"].as_array().is_some_and(|t| {
                            t.iter().map(bytes).collect::<Vec<_>>()
                                == l.data.topics().iter().map(|t| Some(Bytes::copy_from_slice(t.as_slice()))).collect::<Vec<_>>()
                        })
                        && u256(&g["transactionIndex"]) == Some(U256::from(i))
                        && bytes(&g["transactionHash"]) == h
                });
            if !same {
                return bad("receipt logs", format!("{logs:?} (transaction {i})"), g["logs"].to_string());
            }
        }
        // the files say the same
        let out = dir.0.join("out/deep");
        if c.mode > 0 {
            tag(&mut pass, "files");
            for (n, v) in [("alloc.json", &ran.out["alloc"]), ("result.json", res)] {
                let f = std::fs::read(out.join(n)).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                if f.as_ref() != Some(v) {
                    return bad("file", format!("{n} as printed"), format!("{f:?}").chars().take(300).collect());
                }
            }
        } else if out.exists() {
            return bad("file", "no files".into(), "some".into());
        }
        Ok(pass)
    }
    fn budget(&self) -> (u64, u64) {
        (12_000, 300_000)
    }
    fn rule(&self) -> &'static str {
        "Generated allocations, environments and 0-5 transactions (legacy with and without a chain, access list, dynamic fee, set code; senders by key, some without; some invalid) given to the tool as a process, by standard input or files, some in two runs of which the second starts from the first's output. Post state, root, logs hash and bloom, receipts, rejected transactions and gas are compared with the reference model and independent encodings; unknown transaction kinds must make it fail without output. Non-trivial: at least one transaction executes."
    }
}

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(Tool)]
}
