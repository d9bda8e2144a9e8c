//! Keyless deployments (C19, C20, C21).
use super::equiv::*;
use crate::{common::*, ensure, ensure_eq, prog::*, reft::*, runner::*};
use alloy_primitives::{keccak256, Address, Bytes, B256, U256};
use alloy_sol_types::{SolCall, SolError};
use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
use mega_evm::{EvmTxRuntimeLimits, IKeylessDeploy, MegaEvm, MegaHaltReason, MegaSpecId, MegaTransaction};
use revm::{
    context::{
        transaction::{AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization},
        TxEnv,
    },
    context_interface::either::Either,
    primitives::TxKind,
};

pub const OVERHEAD: u64 = 100_000;
/// A call that is not intercepted runs this stand-in, which leaves a mark in the log.
pub const MARK: u64 = 0x4e07;

// ------------------------------------------------------------------ requests

fn rlp_bytes(b: &[u8], out: &mut Vec<u8>) {
    if b.len() == 1 && b[0] < 0x80 {
        out.push(b[0]);
    } else {
        rlp_len(b.len(), 0x80, out);
        out.extend_from_slice(b);
    }
}
fn rlp_len(n: usize, base: u8, out: &mut Vec<u8>) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let be = n.to_be_bytes();
        let s = be.iter().position(|x| *x != 0).unwrap();
        out.push(base + 55 + (8 - s) as u8);
        out.extend_from_slice(&be[s..]);
    }
}
fn be(v: U256) -> Vec<u8> {
    let b = v.to_be_bytes::<32>();
    let s = b.iter().position(|x| *x != 0).unwrap_or(32);
    b[s..].to_vec()
}
fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let p = items.concat();
    let mut out = vec![];
    rlp_len(p.len(), 0xc0, &mut out);
    out.extend_from_slice(&p);
    out
}
fn item(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    rlp_bytes(b, &mut o);
    o
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mangle {
    None,
    Empty,
    Truncated,
    Trailing,
    ExtraField,
    MissingField,
    Typed(u8),
    NotAList,
    LeadingZeroNonce,
    LeadingZeroGas,
    ShortTo,
    ShortHeader,
    NonceTooBig,
}
pub const MANGLES: [Mangle; 14] = [
    Mangle::None,
    Mangle::Empty,
    Mangle::Truncated,
    Mangle::Trailing,
    Mangle::ExtraField,
    Mangle::MissingField,
    Mangle::Typed(1),
    Mangle::Typed(2),
    Mangle::NotAList,
    Mangle::LeadingZeroNonce,
    Mangle::LeadingZeroGas,
    Mangle::ShortTo,
    Mangle::ShortHeader,
    Mangle::NonceTooBig,
];

#[derive(Clone, Debug)]
pub struct Req {
    pub nonce: u64,
    pub price: u128,
    pub gas: u64,
    pub to: Option<Address>,
    pub value: U256,
    pub data: Vec<u8>,
    pub v: u64,
    pub r: U256,
    pub s: U256,
    pub mangle: Mangle,
}
fn order() -> U256 {
    "0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141".parse().unwrap()
}
fn nick() -> U256 {
    U256::from_be_bytes([0x22u8; 32])
}
impl Req {
    pub fn new(data: Vec<u8>) -> Self {
        Self {
            nonce: 0,
            price: 3,
            gas: 100_000,
            to: None,
            value: U256::ZERO,
            data,
            v: 27,
            r: nick(),
            s: nick(),
            mangle: Mangle::None,
        }
    }
    fn fields(&self) -> Vec<Vec<u8>> {
        vec![
            item(&be(U256::from(self.nonce))),
            item(&be(U256::from(self.price))),
            item(&be(U256::from(self.gas))),
            item(self.to.as_ref().map(|a| a.as_slice()).unwrap_or(&[])),
            item(&be(self.value)),
            item(&self.data),
        ]
    }
    pub fn raw(&self) -> Vec<u8> {
        let mut f = self.fields();
        f.push(item(&be(U256::from(self.v))));
        f.push(item(&be(self.r)));
        f.push(item(&be(self.s)));
        match self.mangle {
            Mangle::None => rlp_list(&f),
            Mangle::Empty => vec![],
            Mangle::Truncated => {
                let mut x = rlp_list(&f);
                x.pop();
                x
            }
            Mangle::Trailing => {
                let mut x = rlp_list(&f);
                x.push(0);
                x
            }
            Mangle::ExtraField => {
                f.push(item(&[1]));
                rlp_list(&f)
            }
            Mangle::MissingField => {
                f.pop();
                rlp_list(&f)
            }
            Mangle::Typed(t) => {
                let mut x = vec![t];
                x.extend(rlp_list(&f));
                x
            }
            Mangle::NotAList => item(&f.concat()),
            Mangle::LeadingZeroNonce => {
                f[0] = vec![0];
                rlp_list(&f)
            }
            Mangle::LeadingZeroGas => {
                let mut b = vec![0];
                b.extend(be(U256::from(self.gas)));
                f[2] = item(&b);
                rlp_list(&f)
            }
            Mangle::ShortTo => {
                f[3] = item(&[9; 19]);
                rlp_list(&f)
            }
            Mangle::ShortHeader => {
                // the list claims to be one byte shorter than its fields
                let p = f.concat();
                let mut out = vec![];
                rlp_len(p.len() - 1, 0xc0, &mut out);
                out.extend_from_slice(&p);
                out
            }
            Mangle::NonceTooBig => {
                f[0] = item(&[1; 9]);
                rlp_list(&f)
            }
        }
    }
    /// The signer, recovered by the harness itself (and remembered per thread).
    pub fn signer(&self) -> Option<Address> {
        thread_local! {
            static SEEN: std::cell::RefCell<std::collections::HashMap<Vec<u8>, Option<Address>>> = Default::default();
        }
        let mut key = rlp_list(&self.fields());
        key.extend(self.v.to_be_bytes());
        key.extend(self.r.to_be_bytes::<32>());
        key.extend(self.s.to_be_bytes::<32>());
        if let Some(a) = SEEN.with(|s| s.borrow().get(&key).copied()) {
            return a;
        }
        let a = self.recover();
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            if s.len() > 4096 {
                s.clear();
            }
            s.insert(key, a)
        });
        a
    }
    fn recover(&self) -> Option<Address> {
        let n = order();
        if self.r.is_zero() || self.s.is_zero() || self.r >= n || self.s >= n {
            return None;
        }
        let h = keccak256(rlp_list(&self.fields()));
        // (r, s, parity) and (r, n - s, other parity) belong to the same key
        let high = self.s > n / U256::from(2);
        let low = if high { n - self.s } else { self.s };
        let sig = Signature::from_scalars(self.r.to_be_bytes::<32>(), low.to_be_bytes::<32>()).ok()?;
        let id = RecoveryId::from_byte((self.v - 27) as u8 ^ high as u8)?;
        let key = VerifyingKey::recover_from_prehash(h.as_slice(), &sig, id).ok()?;
        let p = key.to_encoded_point(false);
        Some(Address::from_slice(&keccak256(&p.as_bytes()[1..])[12..]))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum KErr {
    /// the exact revert data
    Data(Vec<u8>),
    /// any of these
    OneOf(Vec<Vec<u8>>),
    Internal,
}

/// The structural checks and the signer.
fn decode(req: &Req, over: U256) -> Result<Address, KErr> {
    let mal = IKeylessDeploy::MalformedEncoding {}.abi_encode();
    let pre = IKeylessDeploy::NotPreEIP155 {}.abi_encode();
    if req.mangle != Mangle::None {
        return Err(KErr::Data(mal));
    }
    if req.v < 27 || (29..35).contains(&req.v) {
        return Err(KErr::OneOf(vec![mal, pre]));
    }
    if req.to.is_some() {
        return Err(KErr::Data(IKeylessDeploy::NotContractCreation {}.abi_encode()));
    }
    if req.v >= 35 {
        return Err(KErr::Data(pre));
    }
    if req.nonce != 0 {
        return Err(KErr::Data(IKeylessDeploy::NonZeroTxNonce { txNonce: req.nonce }.abi_encode()));
    }
    let over = u64::try_from(over).unwrap_or(u64::MAX);
    if over < req.gas {
        return Err(KErr::Data(
            IKeylessDeploy::GasLimitTooLow { txGasLimit: req.gas, providedGasLimit: over }.abi_encode(),
        ));
    }
    req.signer().ok_or(KErr::Data(IKeylessDeploy::InvalidSignature {}.abi_encode()))
}

// ------------------------------------------------------------------ outer transactions

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Al {
    None,
    Signer,
    Deployed,
    ThirdParty,
    Coinbase,
    Everything,
}
pub const ALS: [Al; 6] = [Al::None, Al::Signer, Al::Deployed, Al::ThirdParty, Al::Coinbase, Al::Everything];

#[derive(Clone, Debug)]
pub struct Outer {
    pub spec: MegaSpecId,
    pub price: u128,
    pub basefee: u64,
    pub value: u128,
    /// gas beyond the intrinsic gas
    pub extra: u64,
    pub al: Al,
    /// an authorisation by this account
    pub auth: Option<Address>,
    /// the signer sends the outer transaction itself
    pub own: bool,
    pub l1: usize,
    pub chain_id: u64,
    pub salt: u64,
    pub limits: Option<EvmTxRuntimeLimits>,
    /// also with a database that serves code by hash only
    pub by_hash: bool,
    /// size of the outer transaction's envelope, for which it pays L1 fees
    pub envelope: usize,
}
impl Outer {
    pub fn new(spec: MegaSpecId) -> Self {
        Self {
            spec,
            price: 0,
            basefee: 0,
            value: 0,
            extra: 5_000_000,
            al: Al::None,
            auth: None,
            own: false,
            l1: 0,
            chain_id: 1,
            salt: 256,
            limits: None,
            by_hash: false,
            envelope: 0,
        }
    }
}

pub fn calldata(raw: &[u8], over: U256) -> Vec<u8> {
    IKeylessDeploy::keylessDeployCall {
        keylessDeploymentTransaction: raw.to_vec().into(),
        gasLimitOverride: over,
    }
    .abi_encode()
}

/// The contract other contracts see at the keyless address; it only leaves a mark.
pub fn marker() -> Vec<u8> {
    Asm::default().push(MARK).push(0).push(0).op(0xa1).op(0).build()
}

/// The world common to all deployments: a third party whose storage and balance the init code
/// changes, an existing account, the deployed marker contract.
pub fn keyless_world() -> World {
    let mut w = base_world();
    // A: slot 0 := call value + 9, slot 5 was 5
    let a = w.set(
        A,
        10,
        1,
        &Asm::default().push(9).op(0x34).op(0x01).push(0).op(0x55).push(1).push(5).op(0x55).op(0).build(),
    );
    a.storage.insert(U256::from(5), U256::from(5));
    // B reverts after writing
    w.set(B, 0, 1, &Asm::default().sstore(1, 1).push(0).push(0).op(0xfd).build());
    w.set(KEYLESS, 0, 1, &marker());
    w.set(COINBASE, 11, 0, &[]);
    w
}

pub struct Built {
    pub w: World,
    pub s: Setup,
    pub tx: MegaTransaction,
    pub sender: Address,
    pub gas_used: u64,
}

fn intrinsic(tx: &MegaTransaction) -> u64 {
    let mut g = 21_000 + 4 * calldata_tokens(&tx.base.data);
    for i in &tx.base.access_list.0 {
        g += 2400 + 1900 * i.storage_keys.len() as u64;
    }
    g + 25_000 * tx.base.authorization_list.len() as u64
}

/// `signer`: None when it cannot be recovered.
pub fn build(w: World, o: &Outer, raw: &[u8], over: U256, signer: Option<Address>) -> Built {
    let mut w = w;
    let sender = if o.own { signer.unwrap_or(CALLER) } else { CALLER };
    if o.own {
        let e = w.accts.entry(sender).or_default();
        e.balance += U256::from(ETHER);
    }
    let l = L1_CFGS[o.l1];
    set_l1(&mut w, l.0, l.1, l.2, l.3);
    let mut s = Setup::new(o.spec).salt(o.salt);
    s.block.basefee = o.basefee;
    s.chain_id = o.chain_id;
    s.limits = o.limits;
    let mut tx = tx_call(sender, KEYLESS, calldata(raw, over), o.value);
    tx.base.nonce = w.nonce(sender);
    tx.base.gas_price = o.price;
    let one = |address: Address| AccessListItem { address, storage_keys: vec![B256::ZERO, B256::with_last_byte(5)] };
    let sg = signer.unwrap_or(NONE);
    let items = match o.al {
        Al::None => vec![],
        Al::Signer => vec![one(sg)],
        Al::Deployed => vec![one(sg.create(0))],
        Al::ThirdParty => vec![one(A), one(NONE), one(EOA)],
        Al::Coinbase => vec![one(COINBASE)],
        Al::Everything => vec![one(sg), one(sg.create(0)), one(A), one(NONE), one(EOA), one(COINBASE), one(KEYLESS), one(sg.create(0).create(1))],
    };
    if !items.is_empty() {
        tx.base.tx_type = 1;
        tx.base.access_list = items.into();
    }
    if let Some(a) = o.auth {
        tx.base.tx_type = 4;
        tx.base.gas_priority_fee = Some(o.price);
        tx.base.authorization_list = vec![Either::Right(RecoveredAuthorization::new_unchecked(
            Authorization { chain_id: U256::ZERO, address: B, nonce: w.nonce(a) },
            RecoveredAuthority::Valid(a),
        ))];
    }
    let (st, _, _) = initial_storage_gas(rank(o.spec), &McSalt::uniform(o.salt), &tx, &w);
    let g = intrinsic(&tx) + st;
    tx.base.gas_limit = g + o.extra;
    let mut gas_used = g + OVERHEAD;
    if let Some(a) = o.auth {
        // the authorisation takes effect and the account existed
        let ok = |c: &[u8]| c.is_empty() || c.starts_with(&[0xef, 0x01, 0x00]);
        if w.accts.get(&a).is_some_and(|x| ok(&x.code)) {
            gas_used -= 12_500.min(gas_used / 5);
        }
    }
    gas_used = gas_used.max(super::exec::floor_gas(rank(o.spec), &tx));
    if o.envelope > 0 {
        tx.enveloped_tx = Some([&[2u8][..], &noise(o.envelope)].concat().into());
    }
    Built { w, s, tx, sender, gas_used }
}
/// Bytes that do not compress.
fn noise(n: usize) -> Vec<u8> {
    let mut x = 0x9e37_79b9u32;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            x as u8
        })
        .collect()
}
/// What the outer transaction pays for its envelope.
fn l1_fee(b: &Built) -> U256 {
    let mut info =
        op_revm::L1BlockInfo::try_fetch(&mut McDb::new(&b.w), b.s.block.number, op_revm::OpSpecId::ISTHMUS).unwrap();
    info.calculate_tx_l1_cost(b.tx.enveloped_tx.as_ref().unwrap(), op_revm::OpSpecId::ISTHMUS)
}
fn operator_fee(o: &Outer, gas: u64) -> U256 {
    let l = L1_CFGS[o.l1].3;
    U256::from(gas) * U256::from(l.0) / U256::from(1_000_000u64) + U256::from(l.1)
}

/// The state in which the deployment runs: the sender has paid and its nonce is used.
fn prepaid(b: &Built, o: &Outer) -> World {
    let mut p = b.w.clone();
    {
        let e = p.accts.get_mut(&b.sender).expect("sender exists");
        e.balance -= U256::from(b.tx.base.gas_limit) * U256::from(o.price) + l1_fee(b) + operator_fee(o, b.tx.base.gas_limit);
        e.nonce += 1;
    }
    if let Some(a) = o.auth {
        let e = p.accts.entry(a).or_default();
        if e.code.is_empty() || e.code.starts_with(&[0xef, 0x01, 0x00]) {
            e.code = delegation(B).into();
            e.nonce += 1;
        }
    }
    p
}
/// What the outer transaction adds after the deployment.
fn settle(mut p: World, b: &Built, o: &Outer, gas_used: u64) -> World {
    let mut add = |a: Address, x: U256| {
        if !x.is_zero() {
            p.accts.entry(a).or_default().balance += x;
        }
    };
    add(b.sender, U256::from(b.tx.base.gas_limit - gas_used) * U256::from(o.price));
    add(COINBASE, U256::from(gas_used) * U256::from(o.price - o.basefee as u128));
    add(BASE_VAULT, U256::from(gas_used) * U256::from(o.basefee));
    add(b.sender, operator_fee(o, b.tx.base.gas_limit) - operator_fee(o, gas_used));
    add(super::equiv::OPERATOR_VAULT, operator_fee(o, gas_used));
    add(super::equiv::L1_VAULT, l1_fee(b));
    p
}

/// Result of the reference for a call that covers the overhead.
#[derive(Debug)]
pub struct Want {
    pub res: Res,
    pub rejected: Option<KErr>,
    pub logs: Vec<(Address, Vec<B256>, Bytes)>,
    pub world: World,
    /// the deployment ran (successfully or not)
    pub ran: bool,
}

pub fn reference(b: &Built, o: &Outer, req: &Req, over: U256) -> Want {
    let p = prepaid(b, o);
    let reject = |e: KErr| Want {
        res: Res::Revert { out: Bytes::new() },
        rejected: Some(e),
        logs: vec![],
        world: settle(p.clone(), b, o, b.gas_used),
        ran: false,
    };
    if o.value != 0 {
        return reject(KErr::Data(IKeylessDeploy::NoEtherTransfer {}.abi_encode()));
    }
    let signer = match decode(req, over) {
        Ok(s) => s,
        Err(e) => return reject(e),
    };
    let nonce = p.nonce(signer);
    if nonce > 1 {
        return reject(KErr::Data(IKeylessDeploy::SignerNonceTooHigh { signerNonce: nonce }.abi_encode()));
    }
    let target = signer.create(0);
    if !p.acct(target).code.is_empty() {
        return reject(KErr::Data(IKeylessDeploy::ContractAlreadyExists {}.abi_encode()));
    }
    let over = u64::try_from(over).unwrap_or(u64::MAX);
    let cost = (U256::from(over) * U256::from(req.price)).checked_add(req.value);
    if cost.is_none_or(|c| p.balance(signer) < c) {
        return reject(KErr::Data(IKeylessDeploy::InsufficientBalance {}.abi_encode()));
    }
    // the signed creation alone
    let mut pre = p.clone();
    if let Some(e) = pre.accts.get_mut(&signer) {
        e.nonce = 0;
    }
    let mut t = mk_tx(TxEnv {
        caller: signer,
        kind: TxKind::Create,
        data: req.data.clone().into(),
        value: req.value,
        gas_limit: over,
        gas_price: req.price,
        chain_id: None,
        ..Default::default()
    });
    t.enveloped_tx = Some(req.raw().into());
    let mut s = b.s.clone();
    s.limits = None;
    let r = {
        let mut evm = MegaEvm::new(mega_ctx(McDb::new(&pre), &s).with_sandbox_disabled(true));
        evm.execute_transaction(t)
    };
    let Ok(r) = r else { return reject(KErr::Internal) };
    let x = obs(&r.result);
    let mut q = p.clone();
    q.commit(&r.state);
    let world = settle(q, b, o, b.gas_used);
    let answer = |addr: Address, err: Vec<u8>| Res::Success {
        out: IKeylessDeploy::keylessDeployCall::abi_encode_returns(&IKeylessDeploy::keylessDeployReturn {
            gasUsed: x.gas_used,
            deployedAddress: addr,
            errorData: err.into(),
        })
        .into(),
        created: None,
    };
    let (res, logs) = match &x.res {
        Res::Success { out, created } if !out.is_empty() => (answer(created.unwrap(), vec![]), x.logs.clone()),
        Res::Success { .. } => {
            (answer(Address::ZERO, IKeylessDeploy::EmptyCodeDeployed { gasUsed: x.gas_used }.abi_encode()), vec![])
        }
        Res::Revert { out } => (
            answer(
                Address::ZERO,
                IKeylessDeploy::ExecutionReverted { gasUsed: x.gas_used, output: out.clone() }.abi_encode(),
            ),
            vec![],
        ),
        Res::Halt(_) => {
            (answer(Address::ZERO, IKeylessDeploy::ExecutionHalted { gasUsed: x.gas_used }.abi_encode()), vec![])
        }
        Res::Err(_) => unreachable!(),
    };
    Want { res, rejected: None, logs, world, ran: true }
}

/// Runs one call and compares it with the reference.
pub fn check(w: World, o: &Outer, req: &Req, over: U256) -> CaseResult {
    let signer = if req.v == 27 || req.v == 28 { req.signer() } else { None };
    let b = build(w, o, &req.raw(), over, signer);
    let exec = |db: McDb| {
        MegaEvm::new(mega_ctx(db, &b.s))
            .execute_transaction(b.tx.clone())
            .map_err(|e| Bad { what: format!("the outer transaction was rejected: {e:?}") })
    };
    let m = exec(McDb::new(&b.w))?;
    let x = obs(&m.result);
    // code that the database serves separately is code, too
    if let Some(a) = signer {
        if o.by_hash || [a, a.create(0)].iter().any(|a| b.w.accts.get(a).is_some_and(|x| !x.code.is_empty())) {
            let mut db = McDb::new(&b.w);
            db.inline_code = false;
            let l = exec(db)?;
            ensure_eq!((obs(&l.result), post_world(&b.w, &l.state)), (x.clone(), post_world(&b.w, &m.state)), "with code served by hash");
        }
    }
    if o.extra < OVERHEAD {
        ensure_eq!(x.res, Res::Halt("OutOfGas(Basic)".into()), "a call that cannot pay the overhead");
        ensure_eq!(x.gas_used, b.tx.base.gas_limit, "gas used");
        ensure_eq!(post_world(&b.w, &m.state), settle(prepaid(&b, o), &b, o, b.tx.base.gas_limit), "post state");
        return Ok(Case { state: hash_dbg(&x), transitions: 1, traces: 1 });
    }
    let want = reference(&b, o, req, over);
    match (&want.rejected, &x.res) {
        (None, r) => ensure_eq!(*r, want.res, "result"),
        (Some(KErr::Data(d)), Res::Revert { out }) => {
            ensure_eq!(hexs(out), hexs(d), "revert data")
        }
        (Some(KErr::OneOf(ds)), Res::Revert { out }) => {
            ensure!(ds.iter().any(|d| d == out), "revert data {}", hexs(out))
        }
        (Some(KErr::Internal), Res::Revert { out }) => {
            ensure!(
                out.starts_with(&IKeylessDeploy::InternalError::SELECTOR),
                "an invalid creation must be reported as such: {}",
                hexs(out)
            )
        }
        (Some(k), r) => return bad(format!("must be rejected with {k:?}, was {r:?}")),
    }
    ensure_eq!(x.logs, want.logs, "logs");
    ensure_eq!(x.gas_used, b.gas_used, "gas used by the outer call");
    ensure_eq!(post_world(&b.w, &m.state), want.world, "post state");
    let (d, k) = initial_resources(&b.tx);
    ensure_eq!((m.data_size, m.kv_updates, m.state_growth_used), (d as u64, k as u64, 0), "data, KV updates and growth of the outer call");
    let g = intrinsic(&b.tx);
    let c = if rank(o.spec) >= R_REX3 { g + OVERHEAD } else { g };
    ensure_eq!(m.compute_gas_used, c, "compute gas of the outer call");
    Ok(Case { state: hash_dbg(&x), transitions: 1 + want.ran as u64, traces: 1 })
}
fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn digits(mut i: u64, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = (i % *r as u64) as usize;
            i /= *r as u64;
            d
        })
        .collect()
}
pub fn product(r: &[usize]) -> u64 {
    r.iter().map(|x| *x as u64).product()
}

/// init code that returns one byte of code
pub fn tiny() -> Vec<u8> {
    Asm::default().push(1).push(0).op(0xf3).build()
}
const KSPECS: [MegaSpecId; 3] = [MegaSpecId::REX2, MegaSpecId::REX3, MegaSpecId::REX4];

/// (balance, nonce, code) of the signer; balance relative to the requirement
#[derive(Clone, Copy, Debug)]
enum Bal {
    Absent,
    Zero,
    Short,
    Exact,
    Plenty,
}
fn with_signer(w: &mut World, req: &Req, over: U256, bal: Bal, nonce: u64, code: usize) {
    let Some(a) = (if req.v == 27 || req.v == 28 { req.signer() } else { None }) else { return };
    let over = u64::try_from(over).unwrap_or(u64::MAX);
    let need = (U256::from(over) * U256::from(req.price)).saturating_add(req.value);
    let b = match bal {
        Bal::Absent => return,
        Bal::Zero => U256::ZERO,
        Bal::Short => need.saturating_sub(U256::from(1)),
        Bal::Exact => need,
        Bal::Plenty => need.saturating_add(U256::from(ETHER)),
    };
    let e = w.accts.entry(a).or_default();
    e.balance = b;
    e.nonce = nonce;
    e.code = match code {
        0 => Bytes::new(),
        1 => vec![0].into(),
        _ => delegation(B).into(),
    };
    if e.balance.is_zero() && nonce == 0 && code == 0 {
        w.accts.remove(&a);
    }
}
fn with_target(w: &mut World, req: &Req, kind: usize) {
    let Some(a) = (if req.v == 27 || req.v == 28 { req.signer() } else { None }) else { return };
    let t = a.create(0);
    match kind {
        1 => {
            w.set(t, 5, 0, &[]);
        }
        2 => {
            w.set(t, 0, 1, &[]);
        }
        3 => {
            w.set(t, 0, 1, &[0]);
        }
        4 => {
            w.set(t, 5, 0, &[0x60, 0]);
        }
        _ => {}
    }
}

pub fn c19(run: &Run) {
    // requests: every combination of field values and mangling
    let n = order();
    let vs = [27u64, 28, 0, 1, 26, 29, 34, 35, 36, 37, 38, 12_719];
    let rs: Vec<U256> = vec![
        nick(),
        U256::ZERO,
        U256::from(1),
        n,
        n - U256::from(1),
        n / U256::from(2),
        n / U256::from(2) + U256::from(1),
        U256::MAX,
        U256::from(5), // not the x coordinate of a curve point
    ];
    let rn = rs.len();
    let nonces = [0u64, 1, u64::MAX];
    let gases = [0u64, 60_000, 100_000, 100_001, u64::MAX];
    let overs = [
        U256::from(100_000),
        U256::from(u64::MAX),
        U256::from(u64::MAX) + U256::from(1),
        U256::MAX,
        U256::ZERO,
    ];
    let radix = [KSPECS.len(), MANGLES.len(), 2, vs.len(), nonces.len(), gases.len(), overs.len(), 2];
    run.space(
        "request fields",
        "product of spec x mangling x recipient x v x nonce x gas limit x override x value sent",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let mut r = Req::new(tiny());
            r.mangle = MANGLES[d[1]];
            r.to = [None, Some(A)][d[2]];
            r.v = vs[d[3]];
            r.nonce = nonces[d[4]];
            r.gas = gases[d[5]];
            r.price = 0;
            let over = overs[d[6]];
            let mut o = Outer::new(KSPECS[d[0]]);
            o.value = [0, 1][d[7]];
            let mut w = keyless_world();
            with_signer(&mut w, &r, over, Bal::Plenty, 0, 0);
            check(w, &o, &r, over)
        },
    );
    let radix = [KSPECS.len(), rn, rn, 2, 2];
    run.space(
        "signatures",
        "product of spec x r x s x parity x funded",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let mut r = Req::new(tiny());
            r.r = rs[d[1]];
            r.s = rs[d[2]];
            r.v = 27 + d[3] as u64;
            let over = U256::from(200_000);
            let mut w = keyless_world();
            with_signer(&mut w, &r, over, [Bal::Absent, Bal::Exact][d[4]], 0, 0);
            check(w, &Outer::new(KSPECS[d[0]]), &r, over)
        },
    );
    // state dependent checks
    let bals = [Bal::Absent, Bal::Zero, Bal::Short, Bal::Exact, Bal::Plenty];
    let snonce = [0u64, 1, 2, u64::MAX - 1];
    let values = [U256::ZERO, U256::from(7), U256::MAX];
    let prices = [0u128, 3, u128::MAX];
    let overs = [U256::from(100_000), U256::from(99_999), U256::from(400_000), U256::from(u64::MAX)];
    let l1s = [0usize, 1];
    let radix = [KSPECS.len(), bals.len(), snonce.len(), 3, 5, values.len(), prices.len(), overs.len(), l1s.len(), 2, 2, 2];
    run.space(
        "signer and target state",
        "product of spec x signer balance x nonce x code x target state x value x price x override x L1 fees x sender is the signer x outer value x access list",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let mut r = Req::new(tiny());
            r.value = values[d[5]];
            r.price = prices[d[6]];
            let over = overs[d[7]];
            let mut w = keyless_world();
            with_signer(&mut w, &r, over, bals[d[1]], snonce[d[2]], d[3]);
            with_target(&mut w, &r, d[4]);
            let mut o = Outer::new(KSPECS[d[0]]);
            o.l1 = l1s[d[8]];
            o.own = d[9] == 1;
            o.value = d[10] as u128;
            o.al = [Al::None, Al::Everything][d[11]];
            if o.own && (d[3] == 1 || r.value == U256::MAX || d[2] == 3 || r.price == u128::MAX) {
                // a contract cannot send, and the balance would overflow
                return Ok(Case::default());
            }
            check(w, &o, &r, over)
        },
    );
    // the price of the signed transaction is not compared with the base fee
    run.space(
        "base fee",
        "gas prices around the base fee, all specs",
        3 * 4,
        |i| format!("{i}"),
        |i| {
            let mut r = Req::new(tiny());
            r.price = [0u128, 4, 5, 6][(i / 3) as usize];
            let over = U256::from(400_000);
            let mut w = keyless_world();
            with_signer(&mut w, &r, over, Bal::Plenty, 0, 0);
            let mut o = Outer::new(KSPECS[(i % 3) as usize]);
            o.basefee = 5;
            o.price = 5;
            if r.price < 5 {
                let b = build(w.clone(), &o, &r.raw(), over, r.signer());
                let m = mega_run(&McDb::new(&b.w), &b.s, b.tx.clone()).map_err(|e| Bad { what: format!("{e:?}") })?;
                if let Res::Revert { out } = obs(&m.result).res {
                    if out.starts_with(&IKeylessDeploy::InternalError::SELECTOR) {
                        run.known(
                            "gas_price_below_base_fee_rejected",
                            format!("gas price {} of the signed transaction, base fee 5", r.price),
                        )?;
                    }
                }
            }
            check(w, &o, &r, over)
        },
    );
}

// ------------------------------------------------------------------ C20

fn op(name: &'static str, a: Asm) -> Op {
    Op::Raw(name, a.build())
}
/// Steps of an init code.
fn init_ops(th: bool) -> Vec<Op> {
    let call = |to: Address, v: u64| {
        Asm::default().push(0).push(0).push(0).push(0).push(v).push_addr(to).push(u64::MAX).op(0xf1).op(0x50)
    };
    let store = |k: u64, b: Asm| {
        let mut a = b;
        a = a.push(k).op(0x55);
        a
    };
    let mut v = vec![
        op("sstore", Asm::default().sstore(1, 7)),
        op(
            "logs",
            Asm::default().push(0x77).push(3).push(0).op(0xa1).push(0).push(0).op(0xa0).push(1).push(2).push(3).push(0).push(1).push(0).op(0xa4),
        ),
        op("call A value", call(A, 2)),
        op("call caller", call(CALLER, 3)),
        op("call coinbase", call(COINBASE, 1)),
        op("call none", call(NONE, 1)),
        op("call keyless", call(KEYLESS, 0)),
        op("create", Asm::default().mem(0, &tiny()).push(tiny().len() as u64).push(0).push(1).op(0xf0).op(0x50)),
        op("selfdestruct", Asm::default().push_addr(A).op(0xff)),
        op("read", store(2, Asm::default().push_addr(CALLER).op(0x31))),
        op("env", store(3, Asm::default().op(0x46).op(0x43).op(0x01).op(0x3a).op(0x01).op(0x32).op(0x01).op(0x33).op(0x01))),
    ];
    if th {
        v.extend([
            op("call eoa", call(EOA, 1)),
            op("call B", call(B, 0)),
            op("timestamp", store(4, Asm::default().op(0x42))),
            op("clear", Asm::default().sstore(1, 0)),
            op("create then destroy", {
                let c = Asm::default().push_addr(EOA).op(0xff).build();
                Asm::default().mem(0, &c).push(c.len() as u64).push(0).push(1).op(0xf0).op(0x50)
            }),
            op("extcodehash", store(6, Asm::default().push_addr(A).op(0x3f))),
            op("call signer", Asm::default().push(0).push(0).push(0).push(0).push(1).op(0x33).push(u64::MAX).op(0xf1).op(0x50)),
            op("selfbalance", store(7, Asm::default().op(0x47))),
            op("tload", Asm::default().push(4).push(1).op(0x5d).push(1).op(0x5c).push(8).op(0x55)),
        ]);
    }
    v
}
const INIT_ENDS: [End; 6] =
    [End::Return(1), End::Return(0), End::Stop, End::RevertN(3), End::Invalid, End::ReturnEf(2)];

pub fn c20(run: &Run) {
    let ops = init_ops(run.thorough());
    let n = run.pick(2, 3);
    let al = Alphabet { leaves: ops.clone(), top_ends: INIT_ENDS.to_vec(), ..Default::default() };
    let progs = al.total(n);
    let compile = |i: u64| Image::compile_init(&al.at(n, i), false);
    // outer variants
    let mut outers: Vec<Outer> = vec![];
    for spec in KSPECS {
        for a in ALS {
            for own in [false, true] {
                for price in [0u128, 9] {
                    let mut o = Outer::new(spec);
                    o.al = a;
                    o.own = own;
                    o.price = price;
                    o.basefee = if price == 0 { 0 } else { 2 };
                    outers.push(o);
                }
            }
        }
    }
    let run_case = |prog: u64, o: &Outer, nonce: u64, target: usize, code: usize, value: u64, price: u128, over: u64| {
        let mut r = Req::new(compile(prog));
        r.value = U256::from(value);
        r.price = price.max(o.basefee as u128);
        r.gas = 50_000;
        let over = U256::from(over);
        let mut w = keyless_world();
        with_signer(&mut w, &r, over, Bal::Plenty, nonce, code);
        with_target(&mut w, &r, target);
        let mut o = o.clone();
        if o.auth == Some(NONE2) {
            o.auth = r.signer();
        }
        check(w, &o, &r, over)
    };
    let ol = outers.len() as u64;
    run.space(
        "init programs",
        &format!("every init code of at most {n} steps out of {} and every ending x access lists x sender x fee x spec; signer holds value and uses a used nonce alternately", ops.len()),
        progs * ol,
        |i| format!("{:?} {:?}", al.at(n, i / ol), outers[(i % ol) as usize]),
        |i| {
            let p = i / ol;
            let alt = p % 2;
            let o = &outers[(i % ol) as usize];
            let nonce = if o.own { 0 } else { alt };
            run_case(p, o, nonce, (p % 2) as usize, 0, 1_000 * (1 - alt) + 50, 3, 3_000_000)
        },
    );
    let n1 = run.pick(1, 2);
    let progs1 = al.total(n1);
    let compile1 = |i: u64| al.at(n1, i);
    let radix = [3, progs1 as usize, 2, 3, 3, 2, 3, 2, 3];
    run.space(
        "circumstances",
        &format!("every init code of at most {n1} steps x spec x signer nonce x target (absent, funded, nonce used) x signer code (none, contract, delegated) x value x override (generous, scarce, too little to be valid) x L1 fees x authorisation (none, other, signer)"),
        product(&radix),
        |i| {
            let d = digits(i, &radix);
            format!("{:?} {d:?}", compile1(d[1] as u64))
        },
        |i| {
            let d = digits(i, &radix);
            let mut r = Req::new(Image::compile_init(&compile1(d[1] as u64), false));
            r.value = U256::from([0u64, 60][d[5]]);
            r.gas = 50_000;
            let over = U256::from([3_000_000u64, 140_000, 52_000][d[6]]);
            let mut w = keyless_world();
            with_signer(&mut w, &r, over, Bal::Plenty, d[2] as u64, d[4]);
            with_target(&mut w, &r, d[3]);
            let mut o = Outer::new(KSPECS[d[0]]);
            o.l1 = [0, 1][d[7]];
            o.auth = [None, Some(EOA), r.signer()][d[8]];
            check(w, &o, &r, over)
        },
    );
    // every override around the gas need
    let n2 = run.pick(1, 2);
    let progs2 = al.total(n2);
    run.space(
        "override sweep",
        &format!("every init code of at most {n2} steps x override at the exact gas need and one below, spec"),
        progs2 * 3 * 4,
        |i| format!("{:?} {}", al.at(n2, i / 12), i % 12),
        |i| {
            let code = Image::compile_init(&al.at(n2, i / 12), false);
            let mut r = Req::new(code);
            r.gas = 1;
            r.value = U256::from(60);
            // gas used by the direct run with plenty
            let signer = r.signer().unwrap();
            let mut w = keyless_world();
            with_signer(&mut w, &r, U256::from(9_000_000), Bal::Plenty, 0, 0);
            let spec = KSPECS[(i % 3) as usize];
            let mut t = tx_create(signer, r.data.clone(), 60);
            t.base.gas_limit = 9_000_000;
            t.base.gas_price = r.price;
            let m = MegaEvm::new(mega_ctx(McDb::new(&w), &Setup::new(spec)).with_sandbox_disabled(true))
                .execute_transaction(t)
                .map_err(|e| Bad { what: format!("{e:?}") })?;
            let g = m.result.gas_used();
            let over = match (i / 3) % 4 {
                0 => g,
                1 => g - 1,
                2 => g + 1,
                _ => g / 2,
            };
            let mut r2 = r.clone();
            r2.gas = 1;
            check(w, &Outer::new(spec), &r2, U256::from(over))
        },
    );
    // the environment of the outer transaction
    run.space(
        "environment",
        "chain id and bucket capacities of the outer context x first init codes",
        al.total(1) * 3 * 3,
        |i| format!("{:?} {}", al.at(1, i / 9), i % 9),
        |i| {
            let mut r = Req::new(Image::compile_init(&al.at(1, i / 9), false));
            r.gas = 50_000;
            r.value = U256::from(60);
            let over = U256::from(3_000_000);
            let mut w = keyless_world();
            with_signer(&mut w, &r, over, Bal::Plenty, 0, 0);
            let mut o = Outer::new(KSPECS[(i % 3) as usize]);
            match (i / 3) % 3 {
                0 => o.chain_id = 6342,
                1 => o.salt = 1024,
                _ => {
                    o.chain_id = 4326;
                    o.price = 7;
                }
            }
            if o.salt != 256 {
                let c = check(w.clone(), &o, &r, over);
                if c.is_err() {
                    // the sandbox prices storage as if every bucket had its minimum size
                    let b = build(w.clone(), &o, &r.raw(), over, r.signer());
                    let m = mega_run(&McDb::new(&b.w), &b.s, b.tx.clone()).map_err(|e| Bad { what: format!("{e:?}") })?;
                    let mut b2 = build(w, &o, &r.raw(), over, r.signer());
                    b2.s.envs.salt = McSalt::uniform(256);
                    let want = reference(&b2, &o, &r, over);
                    ensure_eq!(obs(&m.result).res, want.res, "result with minimal buckets");
                    ensure_eq!(post_world(&b.w, &m.state), want.world, "post state with minimal buckets");
                    run.known("sandbox_ignores_bucket_capacity", format!("bucket capacity {} , {:?}", o.salt, al.at(1, i / 9)))?;
                    return Ok(Case { state: 2, transitions: 2, traces: 1 });
                }
                return c;
            }
            check(w, &o, &r, over)
        },
    );
    c20_sights(run);
}

/// One thing init code can see each, stored; and copies of code.
fn sights() -> Vec<(&'static str, Asm)> {
    let st = |b: Asm| b.push(9).op(0x55);
    let mut v: Vec<(&'static str, Asm)> = vec![];
    for (n, back) in [("blockhash parent", 1u64), ("blockhash 2 back", 2), ("blockhash 256 back", 256), ("blockhash 257 back", 257), ("blockhash itself", 0)] {
        v.push((n, st(Asm::default().push(back).op(0x43).op(0x03).op(0x40))));
    }
    v.push(("blockhash 0", st(Asm::default().push(0).op(0x40))));
    for (n, o) in [
        ("address", 0x30u8),
        ("origin", 0x32),
        ("caller", 0x33),
        ("value", 0x34),
        ("calldatasize", 0x36),
        ("codesize", 0x38),
        ("gasprice", 0x3a),
        ("returndatasize", 0x3d),
        ("coinbase", 0x41),
        ("timestamp", 0x42),
        ("number", 0x43),
        ("prevrandao", 0x44),
        ("gaslimit", 0x45),
        ("chainid", 0x46),
        ("selfbalance", 0x47),
        ("basefee", 0x48),
        ("blobbasefee", 0x4a),
        ("gas", 0x5a),
    ] {
        v.push((n, st(Asm::default().op(o))));
    }
    v.push(("blobhash", st(Asm::default().push(0).op(0x49))));
    for a in [A, B, CALLER, EOA, NONE, COINBASE, KEYLESS, TWIN, ATWIN] {
        v.push(("balance", st(Asm::default().push_addr(a).op(0x31))));
        v.push(("extcodesize", st(Asm::default().push_addr(a).op(0x3b))));
        v.push(("extcodehash", st(Asm::default().push_addr(a).op(0x3f))));
        v.push(("extcodecopy", {
            let b = Asm::default().push(32).push(0).push(0).push_addr(a).op(0x3c).push(0).op(0x51);
            st(b)
        }));
        for o in [0xf1u8, 0xf2, 0xf4, 0xfa] {
            let mut b = Asm::default().push(0).push(0).push(0).push(0);
            if o == 0xf1 || o == 0xf2 {
                b = b.push(0);
            }
            v.push(("call", st(b.push_addr(a).push(100_000).op(o))));
        }
    }
    v
}
/// Same code as the keyless contract and as A.
const TWIN: Address = Address::repeat_byte(0x71);
const ATWIN: Address = Address::repeat_byte(0x72);

fn c20_sights(run: &Run) {
    let sights = sights();
    // incompressible bytes behind the init code: the size of the signed transaction
    let pads: &[usize] = if run.thorough() { &[0, 40, 90, 91, 200, 700, 3000] } else { &[0, 200, 700] };
    let als = [Al::None, Al::ThirdParty, Al::Everything];
    let radix = [sights.len(), KSPECS.len(), pads.len(), 4, als.len(), 2];
    run.space(
        "what init code sees and what its size costs",
        "every environment, block hash and account reading instruction and call of 9 accounts x spec x size of the signed transaction x L1 fee parameters x access list x sender; databases serving code inline and by hash",
        product(&radix),
        |i| {
            let d = digits(i, &radix);
            format!("{} {d:?}", sights[d[0]].0)
        },
        |i| {
            let d = digits(i, &radix);
            let mut code = sights[d[0]].1.clone().push(1).push(0).op(0xf3).build();
            code.extend(noise(pads[d[2]]));
            let mut r = Req::new(code);
            r.gas = 50_000;
            r.value = U256::from(60);
            let over = U256::from(3_000_000);
            let mut w = keyless_world();
            w.set(TWIN, 3, 1, &marker());
            let a = w.accts[&A].code.to_vec();
            w.set(ATWIN, 4, 1, &a);
            with_signer(&mut w, &r, over, Bal::Plenty, 0, 0);
            let mut o = Outer::new(KSPECS[d[1]]);
            o.extra = 30_000_000;
            o.l1 = d[3];
            o.al = als[d[4]];
            o.own = d[5] == 1;
            o.by_hash = true;
            o.envelope = [0, 90, 450][d[0] % 3];
            check(w, &o, &r, over)
        },
    );
}

// ------------------------------------------------------------------ C21

pub fn c21(run: &Run) {
    // who is intercepted
    // gas around the overhead
    let extras = [0u64, 1, 21_000, 99_999, 100_000, 100_001, 250_000];
    let radix = [3, extras.len(), 6, 2, 2];
    run.space(
        "overhead",
        "gas left around the fixed overhead x kind of request x value sent x access list, spec",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let mut r = Req::new(tiny());
            let over = U256::from(400_000);
            let mut w = keyless_world();
            match d[2] {
                0 => {}
                1 => r.mangle = Mangle::Empty,
                2 => r.v = 37,
                3 => r.nonce = 1,
                4 => r.s = U256::ZERO,
                _ => r.data = Asm::default().push(0).push(0).op(0xfd).build(),
            }
            with_signer(&mut w, &r, over, Bal::Exact, 0, 0);
            let mut o = Outer::new(KSPECS[d[0]]);
            o.extra = extras[d[1]];
            o.value = d[3] as u128;
            o.al = [Al::None, Al::Everything][d[4]];
            o.price = 3;
            let raw = r.raw();
            let b = build(w.clone(), &o, &raw, over, r.signer());
            if o.extra >= OVERHEAD && b.gas_used > b.tx.base.gas_limit {
                return Ok(Case::default());
            }
            if mega_run(&McDb::new(&b.w), &b.s, b.tx.clone()).is_err() {
                // below the calldata floor
                ensure!(b.tx.base.gas_limit < super::exec::floor_gas(rank(o.spec), &b.tx), "rejected");
                return Ok(Case { state: 3, transitions: 1, traces: 1 });
            }
            check(w, &o, &r, over)
        },
    );
    // REX3+: the overhead counts as compute gas
    run.space(
        "overhead as compute gas",
        "compute gas limit around the need of the call x request kinds x spec",
        3 * 3 * 3,
        |i| format!("{:?}", digits(i, &[3, 3, 3])),
        |i| {
            let d = digits(i, &[3, 3, 3]);
            let mut r = Req::new(tiny());
            if d[2] == 1 {
                r.mangle = Mangle::Empty;
            }
            if d[2] == 2 {
                r.data = vec![0xfe];
            }
            let over = U256::from(400_000);
            let mut w = keyless_world();
            with_signer(&mut w, &r, over, Bal::Exact, 0, 0);
            let mut o = Outer::new(KSPECS[d[0]]);
            o.price = 3;
            let b = build(w.clone(), &o, &r.raw(), over, r.signer());
            let need = intrinsic(&b.tx) + OVERHEAD;
            let mut l = EvmTxRuntimeLimits::no_limits();
            l.tx_compute_gas_limit = need + [0, 1, 40][d[1]] - 1;
            o.limits = Some(l);
            if rank(o.spec) < R_REX3 || d[1] > 0 {
                return check(w, &o, &r, over);
            }
            let b = build(w, &o, &r.raw(), over, r.signer());
            let m = mega_run(&McDb::new(&b.w), &b.s, b.tx.clone()).map_err(|e| Bad { what: format!("{e:?}") })?;
            let revm::context::result::ExecutionResult::Halt { reason, gas_used } = &m.result else {
                return bad(format!("must halt: {:?}", m.result));
            };
            ensure!(matches!(reason, MegaHaltReason::ComputeGasLimitExceeded { .. }), "{reason:?}");
            ensure_eq!(post_world(&b.w, &m.state), settle(prepaid(&b, &o), &b, &o, *gas_used), "post state");
            ensure_eq!(*gas_used, b.gas_used, "the remaining gas of a transaction stopped by a limit");
            Ok(Case { state: hash_dbg(&reason), transitions: 1, traces: 1 })
        },
    );
    // not intercepted: other specs, other callees, other inputs, nested calls, sandbox disabled
    let inputs = inputs();
    let targets = [KEYLESS, A, NONE, HP_TIMESTAMP, DELEG];
    let radix = [ALL_SPECS.len(), inputs.len(), targets.len(), 2, 2];
    run.space(
        "callee and input",
        "all specs x inputs (exact, padded, truncated, other selector, bad offsets) x callees (keyless contract, others, an account delegated to it) x sandbox enabled x value",
        product(&radix),
        |i| {
            let d = digits(i, &radix);
            format!("{:?} {} {:?} {:?}", ALL_SPECS[d[0]], inputs[d[1]].0, targets[d[2]], &d[3..])
        },
        |i| {
            let d = digits(i, &radix);
            let (w, _, _) = nest_world();
            let s = Setup::new(ALL_SPECS[d[0]]);
            let mut tx = tx_call(CALLER, targets[d[2]], inputs[d[1]].1.clone(), d[4] as u128);
            tx.base.gas_limit = 3_000_000;
            let disabled = d[3] == 1;
            let m = MegaEvm::new(mega_ctx(McDb::new(&w), &s).with_sandbox_disabled(disabled))
                .execute_transaction(tx.clone())
                .map_err(|e| Bad { what: format!("{e:?}") })?;
            let x = obs(&m.result);
            let intercept = rank(s.spec) >= R_REX2 && targets[d[2]] == KEYLESS && inputs[d[1]].2 && !disabled;
            let marked = x.logs.iter().any(|l| l.1 == vec![B256::from(U256::from(MARK))]);
            let has_code = [KEYLESS, DELEG].contains(&targets[d[2]]);
            ensure_eq!(marked, has_code && !intercept, "the contract's own code ran");
            if intercept {
                if d[4] == 0 {
                    ensure!(matches!(x.res, Res::Success { .. }), "{:?}", x.res);
                }
            } else {
                // same as running without the keyless rules at all
                let r = MegaEvm::new(mega_ctx(McDb::new(&w), &s).with_sandbox_disabled(true)).execute_transaction(tx).unwrap();
                ensure_eq!(obs(&r.result), x, "ordinary execution");
                ensure_eq!(post_world(&w, &m.state), post_world(&w, &r.state), "ordinary post state");
            }
            Ok(Case { state: hash_dbg(&x), transitions: 1, traces: 1 })
        },
    );
    // nested
    let depths = run.pick(8usize, 40);
    let radix = [ALL_SPECS.len(), 4, 3, depths + 1, 2];
    run.space(
        "nested calls",
        "all specs x call kind x callee (keyless, delegated account, other) x nesting depth or creation x value: the deployment request is made from inside",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let (mut w, data, target) = nest_world();
            let s = Setup::new(ALL_SPECS[d[0]]);
            let to = [KEYLESS, DELEG, A][d[2]];
            let kind = [0xf1u8, 0xf2, 0xf4, 0xfa][d[1]];
            let mut a = Asm::default().mem(0, &data).push(0).push(0).push(data.len() as u64).push(0);
            if kind == 0xf1 || kind == 0xf2 {
                a = a.push(d[4] as u64);
            }
            let code = a.push_addr(to).push(u64::MAX).op(kind).push(0).op(0x55).op(0).build();
            w.set(C, 5, 1, &code);
            // a chain of contracts, each calling the one before
            let link = |n: usize| if n == 0 { C } else { Address::with_last_byte(0x80 + n as u8) };
            for n in 1..depths {
                let b = Asm::default().push(0).push(0).push(0).push(0).push(0).push_addr(link(n - 1)).push(u64::MAX);
                w.set(link(n), 5, 1, &b.op(0xf1).op(0x50).op(0).build());
            }
            let tx = if d[3] < depths { tx_call(CALLER, link(d[3]), vec![], 0) } else { tx_create(CALLER, code, 5) };
            let tx = with_gas(tx, 60_000_000);
            let m = mega_run(&McDb::new(&w), &s, tx.clone()).map_err(|e| Bad { what: format!("{e:?}") })?;
            let r = MegaEvm::new(mega_ctx(McDb::new(&w), &s).with_sandbox_disabled(true)).execute_transaction(tx).unwrap();
            let x = obs(&m.result);
            ensure_eq!(x, obs(&r.result), "ordinary execution");
            let post = post_world(&w, &m.state);
            ensure_eq!(post, post_world(&w, &r.state), "ordinary post state");
            ensure!(post.acct(target).code.is_empty(), "a nested request deployed");
            let marked = x.logs.iter().any(|l| l.1 == vec![B256::from(U256::from(MARK))]);
            ensure_eq!(marked, to != A && kind != 0xfa, "the contract's own code ran");
            Ok(Case { state: hash_dbg(&x), transitions: 2, traces: 1 })
        },
    );
}

/// World with a funded signer, a valid request and its target.
pub fn nest_world() -> (World, Vec<u8>, Address) {
    let r = Req::new(tiny());
    let over = U256::from(400_000);
    let mut w = keyless_world();
    with_signer(&mut w, &r, over, Bal::Plenty, 0, 0);
    w.set(A, 10, 1, &[0]);
    w.set(DELEG, 5, 1, &delegation(KEYLESS));
    (w, calldata(&r.raw(), over), r.signer().unwrap().create(0))
}

/// (name, calldata, is a well-formed request)
fn inputs() -> Vec<(String, Vec<u8>, bool)> {
    let (_, good, _) = nest_world();
    let mut v: Vec<(String, Vec<u8>, bool)> = vec![];
    let mut add = |n: &str, d: Vec<u8>, ok: bool| v.push((n.to_string(), d, ok));
    add("exact", good.clone(), true);
    add("empty", vec![], false);
    for n in [1usize, 3, 4, 5, 36, 68, 99] {
        add(&format!("first {n} bytes"), good[..n].to_vec(), false);
    }
    let l = good.len();
    add("last word missing", good[..l - 32].to_vec(), false);
    for b in 0..4 {
        let mut x = good.clone();
        x[b] ^= 1;
        add(&format!("selector byte {b} changed"), x, false);
    }
    let mut x = good.clone();
    x[4..36].fill(0xff);
    add("huge offset", x, false);
    let mut x = good.clone();
    x[68..100].fill(0xff);
    add("huge length", x, false);
    v
}

// ------------------------------------------------------------------ C33

/// ABI encoding of a custom error, from its published signature.
enum Arg {
    Num(u64),
    Bytes(Vec<u8>),
}
fn abi_error(sig: &str, args: &[Arg]) -> Vec<u8> {
    let mut out = keccak256(sig.as_bytes())[..4].to_vec();
    let mut tail = vec![];
    for a in args {
        match a {
            Arg::Num(n) => out.extend(U256::from(*n).to_be_bytes::<32>()),
            Arg::Bytes(b) => {
                out.extend(U256::from(32 * args.len() + tail.len()).to_be_bytes::<32>());
                tail.extend(U256::from(b.len()).to_be_bytes::<32>());
                tail.extend_from_slice(b);
                tail.resize(tail.len().next_multiple_of(32), 0);
            }
        }
    }
    out.extend(tail);
    out
}

pub fn c33(run: &Run) {
    use mega_evm::sandbox::{
        calculate_keyless_deploy_address, decode_error_result, decode_keyless_tx, encode_error_result, recover_signer, KeylessDeployError as E,
    };
    let nums = [0u64, 1, 255, 256, 21_000, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let mut cases: Vec<(E, Vec<u8>)> = vec![];
    for (e, n) in [
        (E::MalformedEncoding, "MalformedEncoding()"),
        (E::NotContractCreation, "NotContractCreation()"),
        (E::NotPreEIP155, "NotPreEIP155()"),
        (E::NoEtherTransfer, "NoEtherTransfer()"),
        (E::InvalidSignature, "InvalidSignature()"),
        (E::InsufficientBalance, "InsufficientBalance()"),
        (E::ContractAlreadyExists, "ContractAlreadyExists()"),
        (E::NoContractCreated, "NoContractCreated()"),
        (E::AddressMismatch, "AddressMismatch()"),
        (E::NotIntercepted, "NotIntercepted()"),
    ] {
        cases.push((e, abi_error(n, &[])));
    }
    let placeholder = MegaHaltReason::Base(op_revm::OpHaltReason::Base(revm::context::result::HaltReason::OutOfGas(
        revm::context::result::OutOfGasError::Basic,
    )));
    let lens = run.pick(&[0usize, 1, 31, 32, 33, 64, 100, 300, 1023, 1025, 5000, 70_000][..], &[0usize, 1, 4, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 4097, 5000, 16_384, 24_577, 65_535, 65_536, 70_000, 300_000][..]);
    for x in nums {
        cases.push((E::NonZeroTxNonce { tx_nonce: x }, abi_error("NonZeroTxNonce(uint64)", &[Arg::Num(x)])));
        cases.push((E::SignerNonceTooHigh { signer_nonce: x }, abi_error("SignerNonceTooHigh(uint64)", &[Arg::Num(x)])));
        cases.push((E::ExecutionHalted { gas_used: x, reason: placeholder.clone() }, abi_error("ExecutionHalted(uint64)", &[Arg::Num(x)])));
        cases.push((E::EmptyCodeDeployed { gas_used: x }, abi_error("EmptyCodeDeployed(uint64)", &[Arg::Num(x)])));
        for y in nums {
            cases.push((
                E::GasLimitTooLow { tx_gas_limit: x, provided_gas_limit: y },
                abi_error("GasLimitTooLow(uint64,uint64)", &[Arg::Num(x), Arg::Num(y)]),
            ));
        }
        for l in lens {
            for fill in [0u8, 0xff, 0x41] {
                let b: Vec<u8> = vec![fill; *l];
                cases.push((
                    E::ExecutionReverted { gas_used: x, output: b.clone().into() },
                    abi_error("ExecutionReverted(uint64,bytes)", &[Arg::Num(x), Arg::Bytes(b)]),
                ));
            }
        }
    }
    for l in lens {
        let m: String = "é".chars().chain("error of the sandbox ".chars().cycle()).take(*l).collect();
        cases.push((E::InternalError(m.clone()), abi_error("InternalError(string)", &[Arg::Bytes(m.into_bytes())])));
    }
    run.space(
        "errors",
        "all 17 errors x argument values x output lengths: encoding, decoding, every truncation and every change of a selector byte",
        cases.len() as u64,
        |i| format!("{:?}", cases[i as usize].0).chars().take(200).collect(),
        |i| {
            let (e, want) = &cases[i as usize];
            let got = encode_error_result(e.clone());
            ensure_eq!(got.to_vec(), *want, "encoding");
            ensure_eq!(decode_error_result(want), Some(e.clone()), "decoded");
            let mut n = 2u64;
            // every cut inside the head or the contents (not inside the padding of the last word)
            for cut in 0..want.len().min(400) {
                let lost_padding_only = want[cut..].iter().all(|b| *b == 0) && cut > 4 && want.len() - cut < 32;
                if lost_padding_only {
                    continue;
                }
                n += 1;
                let d = decode_error_result(&want[..cut]);
                ensure!(d.is_none(), "cut to {cut} bytes it decodes as {d:?}");
            }
            // another selector is another error or none
            for p in 0..4 {
                for x in 1..=255u8 {
                    let mut b = want.clone();
                    b[p] ^= x;
                    n += 1;
                    let d = decode_error_result(&b);
                    ensure!(d.is_none(), "with selector {:02x?} it decodes as {d:?}", &b[..4]);
                }
            }
            Ok(Case { state: hash_of(want), transitions: n, traces: n })
        },
    );
    // a halt loses its reason in the encoding and nothing else
    let reasons = [
        placeholder.clone(),
        MegaHaltReason::ComputeGasLimitExceeded { limit: 1, actual: 2 },
        MegaHaltReason::DataLimitExceeded { limit: 3, actual: 4 },
        MegaHaltReason::KVUpdateLimitExceeded { limit: 3, actual: 4 },
        MegaHaltReason::StateGrowthLimitExceeded { limit: 3, actual: 4 },
        MegaHaltReason::Base(op_revm::OpHaltReason::FailedDeposit),
    ];
    run.space(
        "halts",
        "every gas amount x halt reasons",
        (nums.len() * reasons.len()) as u64,
        |i| format!("{:?}", reasons[i as usize % reasons.len()]),
        |i| {
            let x = nums[i as usize / reasons.len()];
            let e = E::ExecutionHalted { gas_used: x, reason: reasons[i as usize % reasons.len()].clone() };
            let got = encode_error_result(e);
            ensure_eq!(got.to_vec(), abi_error("ExecutionHalted(uint64)", &[Arg::Num(x)]), "encoding");
            let d = decode_error_result(&got);
            ensure!(matches!(d, Some(E::ExecutionHalted { gas_used, .. }) if gas_used == x), "decoded as {d:?}");
            Ok(Case { state: hash_of(&got.to_vec()), transitions: 2, traces: 2 })
        },
    );
    // requests: decoding, signer and address
    let n = order();
    let prices = [0u128, 1, 127, 128, 100_000_000_000, u64::MAX as u128 + 1, u128::MAX];
    let gases = [0u64, 127, 128, 100_000, u64::MAX];
    let values = [U256::ZERO, U256::from(1), U256::from(ETHER), U256::MAX];
    let datas: Vec<Vec<u8>> = [0usize, 1, 2, 50, 55, 56, 255, 256, 1000].iter().map(|l| vec![0x60; *l]).chain([vec![0x80]]).collect();
    let sigs = [(nick(), nick()), (U256::from(1), U256::from(1)), (U256::from(5), nick()), (nick(), n - U256::from(1)), (nick(), n / U256::from(2)), (nick(), U256::ZERO), (n, nick())];
    let vs = [27u64, 28];
    let nonces = [0u64, 1, u64::MAX];
    let radix = [nonces.len(), prices.len(), gases.len(), values.len(), datas.len(), sigs.len(), vs.len()];
    run.space(
        "requests",
        "product of nonce x price x gas limit x value x data x signature values x v: decoded fields, signer and deployment address",
        product(&radix),
        |i| format!("{:?}", digits(i, &radix)),
        |i| {
            let d = digits(i, &radix);
            let mut r = Req::new(datas[d[4]].clone());
            r.nonce = nonces[d[0]];
            r.price = prices[d[1]];
            r.gas = gases[d[2]];
            r.value = values[d[3]];
            (r.r, r.s) = sigs[d[5]];
            r.v = vs[d[6]];
            let raw = r.raw();
            let t = decode_keyless_tx(&raw).map_err(|e| Bad { what: format!("a well-formed request is rejected: {e:?}") })?;
            let x = t.tx();
            ensure_eq!(
                (x.nonce, x.gas_price, x.gas_limit, x.to, x.value, x.input.to_vec(), x.chain_id),
                (r.nonce, r.price, r.gas, TxKind::Create, r.value, r.data.clone(), None),
                "decoded fields"
            );
            let who = recover_signer(&t);
            match r.signer() {
                None => ensure_eq!(who, Err(E::InvalidSignature), "signer"),
                Some(a) => {
                    ensure_eq!(who, Ok(a), "signer");
                    let h = keccak256(rlp_list(&[item(a.as_slice()), item(&[])]));
                    ensure_eq!(calculate_keyless_deploy_address(a), Address::from_slice(&h[12..]), "deployment address");
                }
            }
            // with a recipient, or a chain id in v
            let mut q = r.clone();
            q.to = Some(A);
            ensure_eq!(decode_keyless_tx(&q.raw()).err(), Some(E::NotContractCreation), "with a recipient");
            let mut q = r.clone();
            q.v = 35 + (d[6] as u64);
            ensure_eq!(decode_keyless_tx(&q.raw()).err(), Some(E::NotPreEIP155), "with a chain id");
            for m in MANGLES {
                if m != Mangle::None {
                    let mut q = r.clone();
                    q.mangle = m;
                    ensure_eq!(decode_keyless_tx(&q.raw()).err(), Some(E::MalformedEncoding), "{m:?}");
                }
            }
            Ok(Case { state: hash_of(&raw), transitions: 4 + MANGLES.len() as u64, traces: 4 + MANGLES.len() as u64 })
        },
    );
}
