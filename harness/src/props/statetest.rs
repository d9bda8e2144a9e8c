//! C31: the verdict of the state-test runner.
use super::equiv::BASE_VAULT;
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use alloy_primitives::{keccak256, Address, Bytes, B256, U256};
use mega_evm::{MegaEvm, MegaSpecId, MegaTransaction};
use op_revm::{DefaultOp, OpBuilder, OpContext, OpSpecId};
use revm::{
    context::{either::Either, BlockEnv, CfgEnv, TxEnv},
    context_interface::{
        block::BlobExcessGasAndPrice,
        transaction::{AccessList, AccessListItem, Authorization, SignedAuthorization},
    },
    primitives::TxKind,
    ExecuteEvm,
};
use serde_json::{json, Value};
use std::{
    path::PathBuf,
    sync::{Arc, Mutex},
    time::Duration,
};

// ------------------------------------------------------------------ roots, computed independently

fn rlp_bytes(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut v = rlp_head(0x80, b.len());
    v.extend_from_slice(b);
    v
}
fn rlp_head(base: u8, len: usize) -> Vec<u8> {
    if len < 56 {
        return vec![base + len as u8];
    }
    let be: Vec<u8> = len.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
    let mut v = vec![base + 55 + be.len() as u8];
    v.extend(be);
    v
}
fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut v = rlp_head(0xc0, body.len());
    v.extend(body);
    v
}
fn rlp_num(n: U256) -> Vec<u8> {
    rlp_bytes(&n.to_be_bytes::<32>().into_iter().skip_while(|b| *b == 0).collect::<Vec<_>>())
}
/// The nodes of a Merkle Patricia trie below a prefix of `d` nibbles; keys are sorted and distinct.
fn mpt(items: &[(Vec<u8>, Vec<u8>)], d: usize) -> Vec<u8> {
    fn hex_prefix(n: &[u8], leaf: bool) -> Vec<u8> {
        let f = if leaf { 2 } else { 0 };
        let (mut v, rest) = if n.len() % 2 == 1 { (vec![(f + 1) << 4 | n[0]], &n[1..]) } else { (vec![f << 4], n) };
        for p in rest.chunks(2) {
            v.push(p[0] << 4 | p[1]);
        }
        v
    }
    let node_ref = |n: Vec<u8>| if n.len() < 32 { n } else { rlp_bytes(keccak256(&n).as_slice()) };
    if items.is_empty() {
        return vec![0x80];
    }
    if let [(k, v)] = items {
        return rlp_list(&[rlp_bytes(&hex_prefix(&k[d..], true)), rlp_bytes(v)]);
    }
    let (first, last) = (&items[0].0, &items[items.len() - 1].0);
    let common = first[d..].iter().zip(&last[d..]).take_while(|(a, b)| a == b).count();
    if common > 0 {
        let child = node_ref(mpt(items, d + common));
        return rlp_list(&[rlp_bytes(&hex_prefix(&first[d..d + common], false)), child]);
    }
    let mut v = vec![];
    for n in 0..16u8 {
        let sub: Vec<_> = items.iter().filter(|(k, _)| k[d] == n).cloned().collect();
        v.push(if sub.is_empty() { vec![0x80] } else { node_ref(mpt(&sub, d + 1)) });
    }
    v.push(vec![0x80]);
    rlp_list(&v)
}
fn secure_root(items: impl Iterator<Item = (Vec<u8>, Vec<u8>)>) -> B256 {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = items
        .map(|(k, v)| (keccak256(k).iter().flat_map(|b| [b >> 4, b & 15]).collect(), v))
        .collect();
    v.sort();
    keccak256(mpt(&v, 0))
}
fn state_root(w: &World) -> B256 {
    secure_root(w.accts.iter().map(|(a, x)| {
        let storage = secure_root(
            x.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (k.to_be_bytes::<32>().to_vec(), rlp_num(*v))),
        );
        let acct = rlp_list(&[
            rlp_num(U256::from(x.nonce)),
            rlp_num(x.balance),
            rlp_bytes(storage.as_slice()),
            rlp_bytes(keccak256(&x.code).as_slice()),
        ]);
        (a.to_vec(), acct)
    }))
}
fn logs_hash(logs: &[(Address, Vec<B256>, Bytes)]) -> B256 {
    let l: Vec<_> = logs
        .iter()
        .map(|(a, t, d)| {
            let t: Vec<_> = t.iter().map(|x| rlp_bytes(x.as_slice())).collect();
            rlp_list(&[rlp_bytes(a.as_slice()), rlp_list(&t), rlp_bytes(d)])
        })
        .collect();
    keccak256(rlp_list(&l))
}

// ------------------------------------------------------------------ suites

const KEY: [u8; 32] = [0x45; 32];
fn key_address(k: &[u8; 32]) -> Address {
    static KEYS: std::sync::LazyLock<[Address; 2]> = std::sync::LazyLock::new(|| [derive(&KEY), derive(&AUTH_KEY)]);
    KEYS[(*k == AUTH_KEY) as usize]
}
fn derive(k: &[u8; 32]) -> Address {
    let k = k256::ecdsa::SigningKey::from_slice(k).unwrap();
    let p = k.verifying_key().to_encoded_point(false);
    Address::from_slice(&keccak256(&p.as_bytes()[1..])[12..])
}

/// The transaction part of a unit, before indexing.
#[derive(Clone, Debug)]
struct Parts {
    ty: Option<u8>,
    /// gasPrice, maxFeePerGas, maxPriorityFeePerGas
    fees: (Option<u64>, Option<u64>, Option<u64>),
    lists: Vec<Option<AccessList>>,
    auths: Option<Vec<SignedAuthorization>>,
    /// authorizations name their parity twice
    twice: bool,
    blob: Option<(u64, usize)>,
    to: Option<Address>,
    /// a missing receiver is written as "" (else: left out)
    to_empty: bool,
    sender: Option<Address>,
    data: Vec<Bytes>,
    gas: Vec<U256>,
    value: Vec<U256>,
    nonce: u64,
}
#[derive(Clone, Debug)]
struct EnvPart {
    chain: Option<u64>,
    base_fee: Option<u64>,
    random: Option<U256>,
    excess: Option<u64>,
    parent: Option<(u64, u64)>,
    gas_limit: u64,
    number: u64,
}

fn hx(n: impl Into<u128>) -> Value {
    json!(format!("0x{:x}", n.into()))
}
fn hu(n: U256) -> Value {
    json!(format!("0x{n:x}"))
}
fn hb(b: &[u8]) -> Value {
    json!(format!("0x{}", alloy_primitives::hex::encode(b)))
}

impl EnvPart {
    fn json(&self) -> Value {
        let mut v = json!({
            "currentCoinbase": COINBASE, "currentDifficulty": "0x020000", "currentGasLimit": hx(self.gas_limit),
            "currentNumber": hx(self.number), "currentTimestamp": "0x03e8",
            "previousHash": B256::repeat_byte(0x5e),
        });
        let o = v.as_object_mut().unwrap();
        if let Some(c) = self.chain {
            o.insert("currentChainID".into(), hx(c));
        }
        if let Some(c) = self.base_fee {
            o.insert("currentBaseFee".into(), hx(c));
        }
        if let Some(c) = self.random {
            o.insert("currentRandom".into(), hu(c));
        }
        if let Some(c) = self.excess {
            o.insert("currentExcessBlobGas".into(), hx(c));
        }
        if let Some((used, excess)) = self.parent {
            o.insert("parentBlobGasUsed".into(), hx(used));
            o.insert("parentExcessBlobGas".into(), hx(excess));
        }
        v
    }
    fn block(&self) -> BlockEnv {
        let mut b = BlockEnv {
            number: U256::from(self.number),
            beneficiary: COINBASE,
            timestamp: U256::from(1000),
            gas_limit: self.gas_limit,
            basefee: self.base_fee.unwrap_or(0),
            difficulty: U256::from(0x020000),
            prevrandao: Some(B256::from(self.random.unwrap_or_default())),
            ..Default::default()
        };
        let excess = self.excess.or(self.parent.map(|(used, ex)| (used + ex).saturating_sub(393_216)));
        if let Some(e) = excess {
            b.blob_excess_gas_and_price = Some(BlobExcessGasAndPrice::new(e, 3_338_477));
        }
        b
    }
    fn chain_id(&self) -> u64 {
        self.chain.unwrap_or(6342)
    }
}
impl Parts {
    fn json(&self) -> Value {
        let mut v = json!({
            "data": self.data, "gasLimit": self.gas.iter().map(|g| hu(*g)).collect::<Vec<_>>(),
            "nonce": hx(self.nonce), "secretKey": B256::from(KEY), "value": self.value.iter().map(|g| hu(*g)).collect::<Vec<_>>(),
        });
        let o = v.as_object_mut().unwrap();
        if let Some(t) = self.ty {
            o.insert("type".into(), json!(t));
        }
        for (n, f) in [("gasPrice", self.fees.0), ("maxFeePerGas", self.fees.1), ("maxPriorityFeePerGas", self.fees.2)] {
            if let Some(f) = f {
                o.insert(n.into(), hx(f));
            }
        }
        if !self.lists.is_empty() {
            o.insert("accessLists".into(), json!(self.lists));
        }
        if let Some(a) = &self.auths {
            let l: Vec<Value> = a
                .iter()
                .map(|x| {
                    let mut v = json!({
                        "chainId": hu(*x.inner().chain_id()), "address": x.inner().address, "nonce": hx(x.inner().nonce),
                        "v": hx(x.y_parity()), "r": hu(x.r()), "s": hu(x.s()),
                        "signer": key_address(&KEY),
                    });
                    if self.twice {
                        v["yParity"] = hx(x.y_parity());
                    }
                    v
                })
                .collect();
            o.insert("authorizationList".into(), json!(l));
        }
        if let Some((fee, n)) = self.blob {
            o.insert("maxFeePerBlobGas".into(), hx(fee));
            o.insert("blobVersionedHashes".into(), json!(blob_hashes(n)));
        }
        match self.to {
            Some(a) => {
                o.insert("to".into(), json!(a));
            }
            None if self.to_empty => {
                o.insert("to".into(), json!(""));
            }
            None => {}
        }
        if let Some(a) = self.sender {
            o.insert("sender".into(), json!(a));
        }
        v
    }
    /// The type of the transaction: as given, else by the fields present.
    fn tx_type(&self, d: usize) -> Option<u8> {
        if self.ty.is_some() {
            return self.ty;
        }
        let needs_to = |t: u8| self.to.map(|_| t);
        if self.blob.is_some() {
            return needs_to(3);
        }
        if self.auths.is_some() {
            return needs_to(4);
        }
        Some(if self.fees.1.is_some() {
            2
        } else if matches!(self.lists.get(d), Some(Some(_))) {
            1
        } else {
            0
        })
    }
    fn tx(&self, d: usize, g: usize, v: usize) -> Option<MegaTransaction> {
        Some(mk_tx(TxEnv {
            tx_type: self.tx_type(d)?,
            caller: self.sender.unwrap_or(key_address(&KEY)),
            gas_limit: self.gas[g].saturating_to(),
            gas_price: self.fees.0.or(self.fees.1).unwrap_or(0) as u128,
            gas_priority_fee: self.fees.2.map(|x| x as u128),
            kind: self.to.map_or(TxKind::Create, TxKind::Call),
            value: self.value[v],
            data: self.data[d].clone(),
            nonce: self.nonce,
            access_list: self.lists.get(d).cloned().flatten().unwrap_or_default(),
            blob_hashes: self.blob.map(|(_, n)| blob_hashes(n)).unwrap_or_default(),
            max_fee_per_blob_gas: self.blob.map_or(u128::MAX, |(f, _)| f as u128),
            authorization_list: self.auths.iter().flatten().map(|a| Either::Left(a.clone())).collect(),
            chain_id: None,
        }))
    }
}
fn blob_hashes(n: usize) -> Vec<B256> {
    (0..n)
        .map(|i| {
            let mut h = [i as u8; 32];
            h[0] = 1;
            B256::from(h)
        })
        .collect()
}
fn auth(chain: u64, to: Address, nonce: u64) -> SignedAuthorization {
    let a = Authorization { chain_id: U256::from(chain), address: to, nonce };
    let k = k256::ecdsa::SigningKey::from_slice(&AUTH_KEY).unwrap();
    let (s, v) = k.sign_prehash_recoverable(a.signature_hash().as_slice()).unwrap();
    let (r, s) = (U256::from_be_slice(&s.r().to_bytes()), U256::from_be_slice(&s.s().to_bytes()));
    SignedAuthorization::new_unchecked(a, v.is_y_odd() as u8, r, s)
}
const AUTH_KEY: [u8; 32] = [0x17; 32];

/// Logs everything the environment shows, writes storage, returns the input.
fn probe() -> Vec<u8> {
    let mut a = Asm::default();
    let envs = [0x33u8, 0x32, 0x34, 0x36, 0x3a, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a];
    for (i, op) in envs.iter().enumerate() {
        a = a.op(*op).push(32 * i as u64).op(0x52);
    }
    let n = 32 * envs.len() as u64;
    // the second blob hash
    a = a.push(1).op(0x49).push(n).op(0x52);
    let n = n + 32;
    // the code of the account the authorization is for, a slot of this contract
    a = a.push_addr(key_address(&AUTH_KEY)).op(0x3f).push(n).op(0x52);
    a = a.push(9).op(0x54).push(n + 32).op(0x52);
    a = a.push(7).push(n + 64).push(0).op(0xa1);
    a = a.sstore(9, 0).sstore(3, 0x1_0000_0001).push(5).op(0x35).push(4).op(0x55);
    // the input is returned; an input that starts with 1 reverts, with 2 halts
    a = a.op(0x36).push(0).push(0).op(0x37);
    a = a.push(0).op(0x35).push(248).op(0x1c);
    let code = a.build();
    let base = code.len() as u64;
    // [first] -> dispatch
    let mut v = code;
    v.extend([0x80, 0x60, 0x01, 0x14]);
    let revert_at = base + 4 + 4 + 4 + 4 + 4; // after both tests and the return
    v.extend([0x61, (revert_at >> 8) as u8, revert_at as u8, 0x57]);
    v.extend([0x60, 0x02, 0x14, 0x15]);
    let ret_at = revert_at + 5;
    v.extend([0x61, (ret_at >> 8) as u8, ret_at as u8, 0x57]);
    v.extend([0xfe, 0x00, 0x00, 0x00]);
    assert_eq!(v.len() as u64, revert_at);
    v.extend([0x5b, 0x36, 0x5f, 0xfd, 0x00]);
    v.extend([0x5b, 0x36, 0x5f, 0xf3]);
    v
}
fn pre() -> World {
    let mut w = World::default();
    w.set(key_address(&KEY), ETHER, 3, &[]);
    w.set(CALLER, 2 * ETHER, 3, &[]);
    let a = w.set(A, 17, 1, &probe());
    a.storage.insert(U256::from(9), U256::from(0x99));
    a.storage.insert(U256::from(10), U256::from(0));
    a.storage.insert(U256::MAX, U256::MAX);
    w.set(B, 0, 0, &[0x00]);
    w.set(DELEG, 1, 1, &delegation(A));
    w.set(BASE_VAULT, 5, 0, &[]);
    w
}
fn pre_json(w: &World) -> Value {
    let mut o = serde_json::Map::new();
    for (a, x) in &w.accts {
        let st: serde_json::Map<String, Value> = x.storage.iter().map(|(k, v)| (format!("0x{k:x}"), hu(*v))).collect();
        o.insert(format!("{a:?}"), json!({"balance": hu(x.balance), "code": hb(&x.code), "nonce": hx(x.nonce), "storage": st}));
    }
    Value::Object(o)
}

/// What a test must expect in order to pass.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Expected {
    /// None: the transaction is rejected (or has no type at all)
    ok: Option<(B256, B256, Option<Bytes>)>,
}
fn is_mega(spec: &str) -> bool {
    spec == "MiniRex"
}
fn expected(spec: &str, db: &McDb, e: &EnvPart, p: &Parts, d: usize, g: usize, v: usize) -> Expected {
    let Some(tx) = p.tx(d, g, v) else { return Expected { ok: None } };
    let (w, db) = (db.world.clone(), db.clone());
    let (o, state) = if is_mega(spec) {
        let mut s = Setup::new(MegaSpecId::MINI_REX).unlimited();
        s.block = e.block();
        s.chain_id = e.chain_id();
        let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(s.spec);
        cfg.chain_id = s.chain_id;
        cfg.set_max_blobs_per_tx(9);
        match MegaEvm::new(mega_ctx(db, &s).with_cfg(cfg)).execute_transaction(tx) {
            Ok(m) => (obs(&m.result), m.state),
            Err(_) => return Expected { ok: None },
        }
    } else {
        let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
        cfg.chain_id = e.chain_id();
        cfg.set_max_blobs_per_tx(9);
        let ctx: OpContext<McDb> = revm::Context::op().with_db(db).with_cfg(cfg).with_block(e.block());
        match ctx.build_op().transact(tx) {
            Ok(x) => (obs(&x.result), x.state),
            Err(_) => return Expected { ok: None },
        }
    };
    let mut post = post_world(&w, &state);
    // not part of an Ethereum state
    post.accts.remove(&BASE_VAULT);
    let out = match o.res {
        Res::Success { out, .. } => Some(out),
        Res::Revert { out } => Some(out),
        _ => None,
    };
    Expected { ok: Some((state_root(&post), logs_hash(&o.logs), out)) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Wrong {
    Nothing,
    Hash,
    Logs,
    /// an exception is expected where none occurs, or the other way around
    Exception,
}
fn test_json(x: &Expected, idx: (usize, usize, usize), wrong: Wrong) -> Value {
    let (mut hash, mut logs) = match &x.ok {
        Some((h, l, _)) => (*h, *l),
        None => (B256::ZERO, B256::ZERO),
    };
    match wrong {
        Wrong::Hash => hash.0[31] ^= 1,
        Wrong::Logs => logs.0[0] ^= 0x80,
        _ => {}
    }
    let mut v = json!({"indexes": {"data": idx.0, "gas": idx.1, "value": idx.2}, "hash": hash, "logs": logs, "txbytes": "0x00"});
    if x.ok.is_none() != (wrong == Wrong::Exception) {
        v["expectException"] = json!("TransactionException.SOMETHING");
    }
    v
}
/// Does the test pass?
fn passes(x: &Expected, wrong: Wrong) -> bool {
    match wrong {
        Wrong::Nothing => true,
        // where the transaction is rejected nothing else is compared
        Wrong::Hash | Wrong::Logs => x.ok.is_none(),
        Wrong::Exception => false,
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("mega-mc-state-test-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn run_suite(dir: &Scratch, name: &str, v: &Value) -> Result<(), String> {
    let p = dir.0.join(name);
    std::fs::write(&p, v.to_string()).expect("suite");
    let r = state_test::runner::execute_test_suite(&p, &Arc::new(Mutex::new(Duration::ZERO)), false, false);
    let _ = std::fs::remove_file(&p);
    r.map_err(|e| e.to_string())
}
fn unit(e: &EnvPart, w: &World, p: &Parts, post: Value, out: Option<&Bytes>) -> Value {
    let mut v = json!({"_info": {"comment": "x"}, "env": e.json(), "pre": pre_json(w), "transaction": p.json(), "post": post});
    if let Some(o) = out {
        v["out"] = json!(o);
    }
    v
}
fn envs() -> Vec<EnvPart> {
    let e = EnvPart { chain: None, base_fee: None, random: None, excess: None, parent: None, gas_limit: 100_000_000, number: 1 };
    vec![
        e.clone(),
        EnvPart { chain: Some(1), base_fee: Some(7), random: Some(U256::from(0x1234)), excess: Some(0x4_0000), ..e.clone() },
        EnvPart { base_fee: Some(11), parent: Some((0x6_0000, 0x4000_0000)), gas_limit: 1_000_000, number: 77, ..e.clone() },
        EnvPart { parent: Some((0, 1)), excess: Some(0x300_0000), chain: Some(6343), ..e.clone() },
        EnvPart { base_fee: Some(1 << 40), number: 0, ..e },
    ]
}
fn parts(i: u64, chain: u64) -> Parts {
    let d = digits(i, &PARTS);
    let al = |a: Address, k: u8| Some(AccessList(vec![AccessListItem { address: a, storage_keys: vec![B256::with_last_byte(k)] }]));
    Parts {
        ty: [None, Some(0), Some(1), Some(2), Some(3), Some(4)][d[0]],
        fees: [(Some(12), None, None), (None, Some(15), Some(2)), (Some(10), Some(15), None), (None, Some(6), Some(7))][d[1]],
        lists: match d[2] {
            0 => vec![],
            1 => vec![al(A, 9), None],
            _ => vec![None, al(NONE, 9), al(B, 1)],
        },
        auths: match d[3] {
            0 => None,
            1 => Some(vec![auth(chain, B, 0), auth(chain + 1, A, 1)]),
            _ => Some(vec![]),
        },
        twice: d[2] == 1,
        blob: [None, Some((9, 1)), Some((40, 7))][d[4]],
        to: [Some(A), None, Some(DELEG)][d[5]],
        to_empty: d[1] % 2 == 0,
        sender: [None, Some(CALLER)][d[6]],
        data: vec![Bytes::from(vec![0; 7]), Bytes::from(vec![2, 0x55, 0x60]), Bytes::from(vec![1, 1]), Bytes::from(vec![0x60, 0, 0x60, 9, 0x55])],
        gas: vec![U256::from(900_000), U256::from(60_000), U256::from(1) << 70],
        value: vec![U256::ZERO, U256::from(1_000_003), U256::from(ETHER)],
        nonce: 3,
    }
}
const PARTS: [usize; 7] = [6, 4, 3, 3, 3, 3, 2];

fn digits(mut i: u64, radix: &[usize]) -> Vec<usize> {
    let mut v = vec![];
    for r in radix {
        v.push((i % *r as u64) as usize);
        i /= *r as u64;
    }
    v
}
fn product(radix: &[usize]) -> u64 {
    radix.iter().map(|r| *r as u64).product()
}
const NAMES: [&str; 24] = [
    "Frontier", "FrontierToHomesteadAt5", "Homestead", "HomesteadToDaoAt5", "HomesteadToEIP150At5", "EIP150", "EIP158",
    "EIP158ToByzantiumAt5", "Byzantium", "ByzantiumToConstantinopleAt5", "ByzantiumToConstantinopleFixAt5", "Constantinople",
    "ConstantinopleFix", "Istanbul", "Berlin", "BerlinToLondonAt5", "London", "Paris", "Merge", "Shanghai", "Cancun", "Prague",
    "Osaka", "MiniRex",
];

pub fn c31(run: &Run) {
    let dir = Scratch::new();
    let seq = std::sync::atomic::AtomicU64::new(0);
    let fresh = || format!("s{}.json", seq.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    // the first failing suite of a process dumps a trace: let it be a small one
    let e0 = envs()[0].clone();
    let mut w0 = World::default();
    w0.set(CALLER, 1, 0, &[]);
    let mut p0 = parts(0, 6342);
    p0.ty = Some(0);
    let x0 = Expected { ok: None };
    let t0 = test_json(&x0, (0, 0, 0), Wrong::Exception);
    let _ = run_suite(&dir, "first.json", &json!({"u": unit(&e0, &w0, &p0, json!({"Prague": [t0]}), None)}));

    let w = pre();
    let envs = envs();
    // every transaction form: right expectations pass, each wrong one fails
    let specs = ["Prague", "MiniRex"];
    let wrongs = [Wrong::Nothing, Wrong::Hash, Wrong::Logs, Wrong::Exception];
    let radix = [envs.len(), specs.len(), product(&PARTS) as usize];
    run.space(
        "transaction forms",
        "type given or implied x fee fields x access lists x authorizations x blobs x receiver x sender given or recovered, x block environment x spec; index triples (quick: 12 covering every pair, thorough: all 36) in one suite; then five tests on their own, made wrong in one of three ways, and the whole suite with its last accepted transaction's hash (or the last rejection) wrong",
        product(&radix),
        |i| {
            let d = digits(i, &radix);
            format!("{:?} {} {:?}", envs[d[0]], specs[d[1]], parts(d[2] as u64, envs[d[0]].chain_id()))
        },
        |i| {
            let d = digits(i, &radix);
            let (e, spec) = (&envs[d[0]], specs[d[1]]);
            // quick: authorizations only in one environment, MINI_REX in two
            let f = digits(d[2] as u64, &PARTS);
            if !run.thorough() && (f[3] == 1 && d[0] != 1 || d[1] == 1 && !matches!(d[0], 1 | 2)) {
                return Ok(Case::default());
            }
            let p = parts(d[2] as u64, e.chain_id());
            let db = McDb::new(&w);
            let mut tests = vec![];
            for dd in 0..4 {
                for g in 0..3 {
                    // thorough: all triples; quick: every pair of indices
                    for v in (0..3).filter(|v| run.thorough() || *v == (dd + g) % 3) {
                        tests.push((expected(spec, &db, e, &p, dd, g, v), (dd, g, v)));
                    }
                }
            }
            let mut traces = 0;
            let mut go = |ts: &[(&Expected, (usize, usize, usize), Wrong)], want: bool| {
                let post: Vec<Value> = ts.iter().map(|(x, i, k)| test_json(x, *i, *k)).collect();
                let s = json!({"a": unit(e, &w, &p, json!({spec: post}), None)});
                traces += 1;
                let r = run_suite(&dir, &fresh(), &s);
                if r.is_ok() != want {
                    return bad(format!("{:?}: should {}: {r:?}", ts, if want { "pass" } else { "fail" }));
                }
                Ok(())
            };
            let all: Vec<_> = tests.iter().map(|(x, i)| (x, *i, Wrong::Nothing)).collect();
            go(&all, true)?;
            for (j, wrong) in [(0usize, Wrong::Hash), (1, Wrong::Exception), (4, Wrong::Logs), (8, Wrong::Hash), (7, Wrong::Exception)] {
                let (x, i) = &tests[j];
                go(&[(x, *i, wrong)], passes(x, wrong))?;
            }
            // the last test that runs at all is wrong, after all the others
            let mut all = all.clone();
            match tests.iter().rposition(|(x, _)| x.ok.is_some()) {
                Some(j) => all[j].2 = Wrong::Hash,
                None => all.last_mut().expect("tests").2 = Wrong::Exception,
            }
            go(&all, false)?;
            Ok(Case { state: hash_dbg(&tests), transitions: tests.len() as u64, traces })
        },
    );
    // expected output, every spec name
    let radix = [NAMES.len(), 4, 3, 4, 2];
    run.space(
        "outputs and spec names",
        "every spec name x input (success, halt, revert) x receiver (probe, creation, delegated) x expected output (absent, right, wrong, empty) x wrong hash: the Constantinople entry is not run, the MiniRex entry runs MINI_REX, every other one EQUIVALENCE",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let (name, e) = (NAMES[d[0]], &envs[1]);
            let mut p = parts(0, e.chain_id());
            p.fees = (Some(9), None, None);
            p.to = [Some(A), None, Some(DELEG)][d[2]];
            if p.to.is_none() {
                p.data[0] = Asm::default().mem(0, &[0x60, 0x00, 0x5b]).push(3).push(0).op(0xf3).build().into();
            }
            let x = expected(name, &McDb::new(&w), e, &p, d[1], 0, 1);
            let Some((_, _, out)) = &x.ok else { return bad("a plain transaction is rejected") };
            let given = match d[3] {
                0 => None,
                1 => Some(out.clone().unwrap_or_default()),
                2 => Some(Bytes::from([out.clone().unwrap_or_default().to_vec(), vec![1]].concat())),
                _ => Some(Bytes::new()),
            };
            let wrong = if d[4] == 1 { Wrong::Hash } else { Wrong::Nothing };
            let s = json!({"a": unit(e, &w, &p, json!({name: [test_json(&x, (d[1], 0, 1), wrong)]}), given.as_ref())});
            let r = run_suite(&dir, &fresh(), &s);
            // a halted execution has no output to compare
            let out_ok = given.is_none() || out.is_none() || given == *out;
            let want = name == "Constantinople" || (out_ok && d[4] == 0);
            ensure_eq!(r.is_ok(), want, "verdict {r:?} for {x:?}");
            Ok(Case { state: hash_dbg(&x), transitions: 1, traces: 1 })
        },
    );
    // suites of several units, specs and tests: one wrong expectation anywhere fails the suite
    let radix = [2, 2, 2, 4, 9];
    run.space(
        "suite structure",
        "1-2 units x 1-2 specs x 1-2 tests x kind of wrong expectation x its position (none, or one of the up to eight tests)",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let e = &envs[1];
            let mut k = 0;
            let mut want = true;
            let mut suite = serde_json::Map::new();
            for u in 0..=d[0] {
                let mut p = parts(0, e.chain_id());
                p.sender = [None, Some(CALLER)][u];
                let mut post = serde_json::Map::new();
                for s in 0..=d[1] {
                    let name = ["Cancun", "MiniRex"][s];
                    let mut ts = vec![];
                    for t in 0..=d[2] {
                        // the second test is of a rejected transaction in one unit
                        let idx = if t == 1 && u == 1 { (0, 2, 0) } else { (t, 0, t) };
                        let x = expected(name, &McDb::new(&w), e, &p, idx.0, idx.1, idx.2);
                        k += 1;
                        let wrong = if k == d[4] { wrongs[d[3]] } else { Wrong::Nothing };
                        want &= passes(&x, wrong);
                        ts.push(test_json(&x, idx, wrong));
                    }
                    post.insert(name.into(), json!(ts));
                }
                suite.insert(["first", "second"][u].into(), unit(e, &w, &p, Value::Object(post), None));
            }
            let r = run_suite(&dir, &fresh(), &Value::Object(suite));
            ensure_eq!(r.is_ok(), want, "verdict {r:?}");
            Ok(Case { state: hash_of(&(i, want)), transitions: k as u64, traces: 1 })
        },
    );
    files(run, &dir);
}

/// `run` on sets of files, in child processes (it ends the process on failure).
fn files(run: &Run, dir: &Scratch) {
    let kinds = ["passing", "failing", "not a suite", "panicking"];
    let max = run.pick(3usize, 4);
    // files x modes
    let small: u64 = (1..=max as u32).map(|n| 4u64.pow(n)).sum();
    // longer runs in which one file or none fails
    let long: Vec<Vec<usize>> = (max + 1..=run.pick(10, 40)).flat_map(|n| (0..=n).map(move |b| (0..n).map(|j| (j == b) as usize).collect())).collect();
    let sets = small + long.len() as u64;
    let radix = [2usize, 2, 2, sets as usize];
    let set = |mut i: u64| {
        if i >= small {
            return long[(i - small) as usize].clone();
        }
        let mut n = 1;
        while i >= 4u64.pow(n) {
            i -= 4u64.pow(n);
            n += 1;
        }
        digits(i, &vec![4; n as usize])
    };
    let e = envs()[1].clone();
    let w = pre();
    let p = parts(0, e.chain_id());
    let x = expected("Prague", &McDb::new(&w), &e, &p, 0, 0, 0);
    let text = |k: usize| match k {
        0 => json!({"a": unit(&e, &w, &p, json!({"Prague": [test_json(&x, (0, 0, 0), Wrong::Nothing)]}), None)}).to_string(),
        1 => json!({"a": unit(&e, &w, &p, json!({"Prague": [test_json(&x, (0, 0, 0), Wrong::Hash)]}), None)}).to_string(),
        2 => "{\"a\": {}}".to_string(),
        // an index out of range
        _ => json!({"a": unit(&e, &w, &p, json!({"Prague": [test_json(&x, (9, 0, 0), Wrong::Nothing)]}), None)}).to_string(),
    };
    let exe = std::env::current_exe().expect("own binary");
    run.space(
        "files",
        "sets of 1.. files (passing, failing, not a suite, panicking) in nested directories, and up to 10 (40) files of which one or none fails, x single thread x trace x keep going: the run succeeds exactly when every file passes",
        product(&radix),
        |i| {
            let d = digits(i, &radix);
            format!("single {} trace {} keep going {} {:?}", d[0], d[1], d[2], set(d[3] as u64).iter().map(|k| kinds[*k]).collect::<Vec<_>>())
        },
        |i| {
            let d = digits(i, &radix);
            let fs = set(d[3] as u64);
            let root = dir.0.join(format!("files{i}"));
            for (j, k) in fs.iter().enumerate() {
                let sub = root.join(["", "x", "x/y", "z"][j % 4]);
                std::fs::create_dir_all(&sub).expect("scratch");
                std::fs::write(sub.join(format!("f{j}.json")), text(*k)).expect("scratch");
                // files that are not suites are not run
                std::fs::write(sub.join(format!("f{j}.txt")), "no").expect("scratch");
            }
            let out = std::process::Command::new(&exe)
                .arg("--state-test-child")
                .arg(&root)
                .args(d[..3].iter().map(|x| x.to_string()))
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .expect("child process");
            let _ = std::fs::remove_dir_all(&root);
            let code = out.code();
            ensure!(matches!(code, Some(0 | 1)), "the child process ended with {code:?}");
            ensure_eq!(code == Some(0), fs.iter().all(|k| *k == 0), "the run succeeds");
            Ok(Case { state: hash_of(&(i, code)), transitions: fs.len() as u64, traces: 1 })
        },
    );
}

/// Child process of [`files`]: exit 0 exactly when the run returned success.
pub fn child(args: &[String]) {
    let flag = |i: usize| args[i] == "1";
    let files = state_test::runner::find_all_json_tests(std::path::Path::new(&args[0]));
    let r = state_test::runner::run(files, flag(1), flag(2), false, flag(3));
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
