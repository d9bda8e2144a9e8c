//! Block execution: limits (C22), sequential equivalence (C23), pre-block changes (C24).
use super::hist::{hist_limits, hist_world};
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use alloy_consensus::{transaction::Recovered, Eip658Value, Sealed, Signed, TxEip1559, TxEip2930, TxEip7702, TxLegacy, TxReceipt};
use alloy_eips::{eip2930::AccessListItem, Encodable2718};
use alloy_evm::{
    block::{BlockExecutionError, BlockExecutor, BlockValidationError, CommitChanges, OnStateHook, StateChangeSource},
    Evm, EvmEnv,
};
use alloy_hardforks::ForkCondition;
use alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use alloy_primitives::{Address, Bytes, Signature, TxKind, B256, U256};
use mega_evm::{
    BlockLimiter, BlockLimits, BlockMegaTransactionOutcome, EnrichedMegaTx, EvmTxRuntimeLimits, MegaBlockExecutionCtx, MegaBlockExecutorFactory,
    MegaBlockLimitExceededError, MegaEvmFactory, MegaHardfork, MegaHardforkConfig, MegaSpecId, MegaTransaction, MegaTransactionOutcome,
    MegaTxEnvelope, MegaTxLimitExceededError,
};
use op_alloy_consensus::{OpReceiptEnvelope, TxDeposit};
use revm::{
    context::{CfgEnv, TxEnv},
    database::State,
    inspector::NoOpInspector,
    state::EvmState,
    Database,
};
use std::{
    any::Any,
    sync::{Arc, Mutex},
};

/// The hardfork configuration that selects a spec.
pub fn forks_for(spec: MegaSpecId) -> MegaHardforkConfig {
    let mut c = MegaHardforkConfig::new();
    let at = ForkCondition::Timestamp(0);
    for (r, f) in [
        (R_MINI, MegaHardfork::MiniRex),
        (R_REX, MegaHardfork::Rex),
        (R_REX1, MegaHardfork::Rex1),
        (R_REX2, MegaHardfork::Rex2),
        (R_REX3, MegaHardfork::Rex3),
        (6, MegaHardfork::Rex4),
    ] {
        if rank(spec) >= r {
            c = c.with(f, at);
        }
    }
    c
}

// ------------------------------------------------------------------ transactions

/// A block transaction: the kind of envelope, its sender and contents.
#[derive(Clone, Debug)]
pub struct Btx {
    name: String,
    ty: u8,
    from: Address,
    to: Option<Address>,
    data: Vec<u8>,
    value: u128,
    gas: u64,
    price: u128,
    mint: u128,
    bad_nonce: bool,
}
const T_DEPOSIT: u8 = 126;
impl Btx {
    fn new(name: &str, data: Vec<u8>) -> Self {
        Btx {
            name: name.into(),
            ty: 0,
            from: CALLER,
            to: Some(A),
            data,
            value: 0,
            gas: 20_000_000,
            price: 3,
            mint: 0,
            bad_nonce: false,
        }
    }
    fn is_deposit(&self) -> bool {
        self.ty == T_DEPOSIT
    }
    fn nonce(&self, w: &World) -> u64 {
        if self.bad_nonce {
            1_000_000
        } else {
            w.nonce(self.from)
        }
    }
    fn kind(&self) -> TxKind {
        self.to.map(TxKind::Call).unwrap_or(TxKind::Create)
    }
    fn access(&self) -> alloy_eips::eip2930::AccessList {
        vec![AccessListItem { address: A, storage_keys: vec![B256::with_last_byte(5)] }].into()
    }
    fn envelope(&self, w: &World) -> Recovered<MegaTxEnvelope> {
        let (nonce, to, value, input, gas_limit) =
            (self.nonce(w), self.kind(), U256::from(self.value), Bytes::from(self.data.clone()), self.gas);
        let sig = Signature::test_signature();
        let hash = alloy_primitives::keccak256(format!("{self:?}{nonce}"));
        let e = match self.ty {
            0 => MegaTxEnvelope::Legacy(Signed::new_unchecked(
                TxLegacy { chain_id: Some(1), nonce, gas_price: self.price, gas_limit, to, value, input },
                sig,
                hash,
            )),
            1 => MegaTxEnvelope::Eip2930(Signed::new_unchecked(
                TxEip2930 { chain_id: 1, nonce, gas_price: self.price, gas_limit, to, value, access_list: self.access(), input },
                sig,
                hash,
            )),
            2 => MegaTxEnvelope::Eip1559(Signed::new_unchecked(
                TxEip1559 {
                    chain_id: 1,
                    nonce,
                    gas_limit,
                    max_fee_per_gas: self.price + 4,
                    max_priority_fee_per_gas: 1,
                    to,
                    value,
                    access_list: Default::default(),
                    input,
                },
                sig,
                hash,
            )),
            4 => MegaTxEnvelope::Eip7702(Signed::new_unchecked(
                TxEip7702 {
                    chain_id: 1,
                    nonce,
                    gas_limit,
                    max_fee_per_gas: self.price + 4,
                    max_priority_fee_per_gas: 1,
                    to: self.to.unwrap(),
                    value,
                    access_list: self.access(),
                    authorization_list: authorizations(),
                    input,
                },
                sig,
                hash,
            )),
            _ => MegaTxEnvelope::Deposit(Sealed::new_unchecked(
                TxDeposit {
                    source_hash: B256::repeat_byte(3),
                    from: self.from,
                    to,
                    mint: self.mint,
                    value,
                    gas_limit,
                    is_system_transaction: false,
                    input,
                },
                hash,
            )),
        };
        Recovered::new_unchecked(e, self.from)
    }
    /// The transaction the EVM should see, built independently of the envelope conversion.
    fn env(&self, w: &World) -> MegaTransaction {
        let mut t = mk_tx(TxEnv {
            tx_type: self.ty,
            caller: self.from,
            kind: self.kind(),
            data: self.data.clone().into(),
            value: U256::from(self.value),
            gas_limit: self.gas,
            gas_price: self.price,
            nonce: self.nonce(w),
            chain_id: Some(1),
            ..Default::default()
        });
        t.enveloped_tx = Some(self.envelope(w).encoded_2718().into());
        match self.ty {
            1 => {
                t.base.access_list =
                    vec![revm::context::transaction::AccessListItem { address: A, storage_keys: vec![B256::with_last_byte(5)] }].into()
            }
            2 => {
                t.base.gas_price = self.price + 4;
                t.base.gas_priority_fee = Some(1);
            }
            4 => {
                t.base.gas_price = self.price + 4;
                t.base.gas_priority_fee = Some(1);
                t.base.access_list =
                    vec![revm::context::transaction::AccessListItem { address: A, storage_keys: vec![B256::with_last_byte(5)] }].into();
                t.base.authorization_list = authorizations().into_iter().map(revm::context_interface::either::Either::Left).collect();
            }
            T_DEPOSIT => {
                t.base.gas_price = 0;
                t.base.nonce = 0;
                t.base.chain_id = None;
                t.deposit.source_hash = B256::repeat_byte(3);
                t.deposit.mint = Some(self.mint);
            }
            _ => {}
        }
        t
    }
}

/// Two authorisations by (different, deterministic) accounts and one for another chain.
fn authorizations() -> Vec<alloy_eips::eip7702::SignedAuthorization> {
    use alloy_eips::eip7702::{Authorization, SignedAuthorization};
    let mk = |chain: u64, nonce: u64| {
        let sig = Signature::test_signature();
        SignedAuthorization::new_unchecked(Authorization { chain_id: U256::from(chain), address: A, nonce }, sig.v() as u8, sig.r(), sig.s())
    };
    vec![mk(1, 0), mk(0, 0), mk(77, 0), mk(1, 5)]
}

const SENDER2: Address = alloy_primitives::address!("00000000000000000000000000000000000c0002");
fn block_world() -> World {
    let mut w = hist_world();
    w.set(SENDER2, 1_000_000 * ETHER, 9, &[]);
    w
}

/// The scripts of the history world, numbered as in `hist::scripts`.
fn menu(volatile: bool) -> Vec<Btx> {
    let mut v = vec![];
    for (i, n) in [
        (0, "write+log"),
        (1, "write then revert"),
        (2, "invalid"),
        (3, "burn over the limit"),
        (8, "logs over the data limit"),
        (9, "new slots over the growth limit"),
        (10, "kv over the limit"),
        (14, "cold reads"),
        (15, "create"),
        (17, "clear slot"),
        (19, "self-destruct"),
    ] {
        // reverting scripts that also read the block
        if volatile || (i != 1 && i != 2) {
            v.push(Btx::new(n, vec![i]));
        }
    }
    v.push(Btx::new("nested revert", vec![16]));
    v.push(Btx::new("unknown script", vec![0x77]));
    if volatile {
        for (i, n) in [(5, "timestamp and burn over the cap"), (11, "beneficiary balance"), (18, "blockhash")] {
            v.push(Btx::new(n, vec![i]));
        }
    }
    v.push(Btx { to: Some(NONE), value: 1, ty: 2, ..Btx::new("transfer to a new account", vec![]) });
    v.push(Btx { ty: 1, ..Btx::new("access list", vec![14]) });
    v.push(Btx { ty: 4, ..Btx::new("authorizations", vec![14]) });
    v.push(Btx { from: SENDER2, ty: 2, ..Btx::new("second sender", vec![0]) });
    v.push(Btx { bad_nonce: true, ..Btx::new("rejected: nonce", vec![0]) });
    v.push(Btx { gas: 90_000, ..Btx::new("out of gas", vec![12]) });
    v.push(Btx { to: Some(COINBASE), value: 3, ..Btx::new("to the beneficiary", vec![]) });
    v.push(Btx { to: None, ..Btx::new("contract creation", Asm::default().push(2).push(0).op(0xf3).build()) });
    v.push(Btx { from: SYSTEM_ADDR, to: Some(ORACLE), price: 0, ..Btx::new("system transaction", vec![]) });
    v.push(Btx { ty: T_DEPOSIT, from: EOA, mint: 77, ..Btx::new("deposit", vec![0]) });
    v.push(Btx { ty: T_DEPOSIT, from: EOA, value: ETHER, ..Btx::new("failing deposit", vec![0]) });
    v.push(Btx { ty: T_DEPOSIT, from: EOA, mint: 3, to: None, ..Btx::new("reverting deposit", vec![0x60, 4, 0x5f, 0xfd]) });
    v.push(Btx { ty: T_DEPOSIT, from: NONE2, mint: 5, to: None, ..Btx::new("deposit creation by a new account", vec![0x00]) });
    v
}

/// More transactions, for blocks of two kinds: long inputs, plain transfers.
fn extras() -> Vec<Btx> {
    let long = |n: usize, x: u8| -> Vec<u8> { (0..n).map(|i| if i == 0 { 14 } else { x.wrapping_mul(i as u8 | 1) }).collect() };
    vec![
        Btx { gas: 300_000, ..Btx::new("long compressible input", long(700, 0)) },
        Btx { gas: 300_000, ty: 2, ..Btx::new("long input", long(500, 113)) },
        Btx { ty: T_DEPOSIT, from: EOA, mint: 1, gas: 300_000, ..Btx::new("deposit with a long input", long(600, 113)) },
        Btx { ty: T_DEPOSIT, from: EOA, mint: 9, value: 2, to: Some(SENDER2), ..Btx::new("deposit, plain transfer", vec![]) },
        Btx { to: Some(SENDER2), value: 2, ..Btx::new("plain transfer", vec![]) },
        Btx { from: SYSTEM_ADDR, to: Some(ORACLE), price: 0, gas: 300_000, ..Btx::new("system transaction with a long input", long(400, 113)) },
    ]
}

// ------------------------------------------------------------------ reference

/// Why a transaction may be refused.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Why {
    TxGas,
    BlockGas,
    TxSize,
    BlockSize,
    TxDa,
    BlockDa,
    Data,
    Kv,
    Compute,
    Growth,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
struct Totals {
    gas: u128,
    size: u128,
    da: u128,
    data: u128,
    kv: u128,
    compute: u128,
    growth: u128,
}
#[derive(Clone, Copy, Debug)]
struct Static {
    gas_limit: u64,
    size: u64,
    da: u64,
    deposit: bool,
}
fn refuse(l: &BlockLimits, t: &Totals, s: &Static) -> Vec<Why> {
    let mut v = vec![];
    let mut add = |c: bool, w: Why| {
        if c {
            v.push(w)
        }
    };
    add(s.gas_limit > l.tx_gas_limit, Why::TxGas);
    add(t.gas + s.gas_limit as u128 > l.block_gas_limit as u128, Why::BlockGas);
    add(s.size > l.tx_encode_size_limit, Why::TxSize);
    add(t.size + s.size as u128 > l.block_txs_encode_size_limit as u128, Why::BlockSize);
    if !s.deposit {
        add(s.da > l.tx_da_size_limit, Why::TxDa);
        add(t.da + s.da as u128 > l.block_da_size_limit as u128, Why::BlockDa);
    }
    add(t.data >= l.block_txs_data_limit as u128, Why::Data);
    add(t.kv >= l.block_kv_update_limit as u128, Why::Kv);
    add(t.compute >= l.block_compute_gas_limit as u128, Why::Compute);
    add(t.growth >= l.block_state_growth_limit as u128, Why::Growth);
    v
}
/// Classifies the error of a refusal and checks the numbers it carries.
fn why(e: &BlockExecutionError, l: &BlockLimits, t: &Totals, s: &Static) -> Option<Result<Why, String>> {
    let BlockExecutionError::Validation(v) = e else { return None };
    match v {
        BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas { transaction_gas_limit, block_available_gas } => {
            let ok = *transaction_gas_limit == s.gas_limit &&
                *block_available_gas as u128 == (l.block_gas_limit as u128).saturating_sub(t.gas);
            Some(if ok { Ok(Why::BlockGas) } else { Err(format!("numbers in {v:?}")) })
        }
        BlockValidationError::InvalidTx { error, .. } => {
            let any: &dyn Any = &**error;
            let num = |w: Why, used: u64, lim: u64, want: (u128, u64)| {
                if (used as u128, lim) == want {
                    Ok(w)
                } else {
                    Err(format!("numbers in {v:?}, want {want:?}"))
                }
            };
            if let Some(x) = any.downcast_ref::<MegaTxLimitExceededError>() {
                use MegaTxLimitExceededError as M;
                Some(match x {
                    M::TransactionGasLimit { .. } => num(Why::TxGas, x.usage(), x.limit(), (s.gas_limit as u128, l.tx_gas_limit)),
                    M::TransactionEncodeSizeLimit { .. } => num(Why::TxSize, x.usage(), x.limit(), (s.size as u128, l.tx_encode_size_limit)),
                    M::DataAvailabilitySizeLimit { .. } => num(Why::TxDa, x.usage(), x.limit(), (s.da as u128, l.tx_da_size_limit)),
                })
            } else if let Some(x) = any.downcast_ref::<MegaBlockLimitExceededError>() {
                use MegaBlockLimitExceededError as M;
                let (u, m) = (x.block_used(), x.limit());
                Some(match x {
                    M::TransactionDataLimit { .. } => num(Why::Data, u, m, (t.data, l.block_txs_data_limit)),
                    M::KVUpdateLimit { .. } => num(Why::Kv, u, m, (t.kv, l.block_kv_update_limit)),
                    M::ComputeGasLimit { .. } => num(Why::Compute, u, m, (t.compute, l.block_compute_gas_limit)),
                    M::TransactionEncodeSizeLimit { tx_used, .. } if *tx_used == s.size => {
                        num(Why::BlockSize, u, m, (t.size, l.block_txs_encode_size_limit))
                    }
                    M::DataAvailabilitySizeLimit { tx_used, .. } if *tx_used == s.da => num(Why::BlockDa, u, m, (t.da, l.block_da_size_limit)),
                    M::StateGrowthLimit { .. } => num(Why::Growth, u, m, (t.growth, l.block_state_growth_limit)),
                    _ => Err(format!("numbers in {v:?}")),
                })
            } else {
                None
            }
        }
        _ => None,
    }
}
fn totals(b: &BlockLimiter) -> Totals {
    Totals {
        gas: b.block_gas_used as u128,
        size: b.block_tx_size_used as u128,
        da: b.block_da_size_used as u128,
        data: b.block_data_used as u128,
        kv: b.block_kv_updates_used as u128,
        compute: b.block_compute_gas_used as u128,
        growth: b.block_state_growth_used as u128,
    }
}
fn judge(got: &Result<(), BlockExecutionError>, l: &BlockLimits, t: &Totals, s: &Static) -> Result<bool, Bad> {
    let want = refuse(l, t, s);
    match got {
        Ok(()) => {
            ensure!(want.is_empty(), "admitted although over {want:?}: {s:?} at {t:?}");
            Ok(true)
        }
        Err(e) => match why(e, l, t, s) {
            Some(Ok(w)) => {
                ensure!(want.contains(&w), "refused for {w:?}, reference {want:?}: {s:?} at {t:?}");
                Ok(false)
            }
            Some(Err(m)) => bad(m),
            None => bad(format!("unexpected refusal {e:?}; {s:?} at {t:?}")),
        },
    }
}

// ------------------------------------------------------------------ C22: the limiter alone

const RES: [&str; 7] = ["gas", "size", "da", "data", "kv", "compute", "growth"];
#[derive(Clone, Copy, Debug)]
struct Raw {
    s: Static,
    used: [u64; 7],
}
fn raw_tx(pair: (usize, usize), a: u64, b: u64, deposit: bool) -> Raw {
    let mut used = [0u64; 7];
    used[pair.0] = a;
    used[pair.1] = b;
    // the declared gas limit of a transaction is what it uses, or one more
    Raw { s: Static { gas_limit: used[0], size: used[1], da: used[2], deposit }, used }
}
fn limiter_seq(l: BlockLimits, seq: &[Raw]) -> CaseResult {
    let mut b = if seq.len() % 2 == 0 { l.to_block_limiter() } else { BlockLimiter::new(l) };
    let mut t = Totals::default();
    let mut h = vec![];
    for r in seq {
        let before = totals(&b);
        let got = b.pre_execution_check(B256::ZERO, r.s.gas_limit, r.s.size, r.s.da, r.s.deposit);
        let ok = judge(&got, &l, &t, &r.s)?;
        ensure_eq!(totals(&b), before, "totals changed by a check");
        h.push(ok);
        if !ok {
            continue;
        }
        let u = r.used;
        let next = Totals {
            gas: t.gas + u[0] as u128,
            size: t.size + u[1] as u128,
            da: t.da + if r.s.deposit { 0 } else { u[2] as u128 },
            data: t.data + u[3] as u128,
            kv: t.kv + u[4] as u128,
            compute: t.compute + u[5] as u128,
            growth: t.growth + u[6] as u128,
        };
        // totals beyond the counters' range have no defined value
        let top = u64::MAX as u128;
        if [next.gas, next.size, next.da, next.data, next.kv, next.compute, next.growth].iter().any(|x| *x > top) {
            break;
        }
        b.post_execution_update_raw(u[0], u[1], u[2], u[3], u[4], u[5], u[6], r.s.deposit);
        t = next;
        ensure_eq!(totals(&b), t, "totals after {r:?}");
        let full = t.gas >= l.block_gas_limit as u128 ||
            t.size >= l.block_txs_encode_size_limit as u128 ||
            t.da >= l.block_da_size_limit as u128 ||
            t.data >= l.block_txs_data_limit as u128 ||
            t.kv >= l.block_kv_update_limit as u128 ||
            t.compute >= l.block_compute_gas_limit as u128 ||
            t.growth >= l.block_state_growth_limit as u128;
        ensure_eq!(b.is_block_limit_reached(), full, "whether a block limit is reached at {t:?}");
    }
    Ok(Case { state: hash_dbg(&(h, t)), transitions: seq.len() as u64, traces: 1 })
}
fn with_block_limit(l: BlockLimits, r: usize, v: u64) -> BlockLimits {
    match r {
        0 => l.with_block_gas_limit(v),
        1 => l.with_block_txs_encode_size_limit(v),
        2 => l.with_block_da_size_limit(v),
        3 => l.with_block_txs_data_limit(v),
        4 => l.with_block_kv_update_limit(v),
        5 => l.with_block_compute_gas_limit(v),
        _ => l.with_block_state_growth_limit(v),
    }
}
fn with_tx_limit(l: BlockLimits, r: usize, v: u64) -> BlockLimits {
    match r {
        0 => l.with_tx_gas_limit(v),
        1 => l.with_tx_encode_size_limit(v),
        2 => l.with_tx_da_size_limit(v),
        _ => l,
    }
}

/// Mixed-radix decoding.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d as usize
        })
        .collect()
}

// ------------------------------------------------------------------ running a block

/// What to do with one transaction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act {
    Exec,
    /// executed, then not committed
    Drop,
    /// executed now, committed after all others (in order)
    Hold,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    Plain,
    Enriched,
    Inspected,
}

struct Hook(Arc<Mutex<(World, Vec<String>)>>);
impl OnStateHook for Hook {
    fn on_state(&mut self, src: StateChangeSource, st: &EvmState) {
        let mut g = self.0.lock().unwrap();
        g.0.commit(st);
        g.1.push(format!("{src:?}"));
    }
}

pub fn world_via_state(st: &mut State<McDb>, like: &[&World]) -> World {
    let mut out = World::default();
    let mut addrs: std::collections::BTreeMap<Address, std::collections::BTreeSet<U256>> = Default::default();
    for w in like {
        for (a, x) in &w.accts {
            addrs.entry(*a).or_default().extend(x.storage.keys().copied());
        }
    }
    for (a, _) in st.bundle_state.state.iter() {
        addrs.entry(*a).or_default();
    }
    for (a, c) in st.cache.accounts.iter() {
        let e = addrs.entry(*a).or_default();
        if let Some(p) = &c.account {
            e.extend(p.storage.keys().copied());
        }
    }
    for (a, ks) in addrs {
        let Some(info) = st.basic(a).unwrap() else { continue };
        if info.is_empty() {
            continue;
        }
        let code = match &info.code {
            Some(c) => c.original_bytes(),
            None if info.is_empty_code_hash() => Bytes::new(),
            None => st.code_by_hash(info.code_hash).unwrap().original_bytes(),
        };
        let mut x = Acct { balance: info.balance, nonce: info.nonce, code, ..Default::default() };
        for k in ks {
            let v = st.storage(a, k).unwrap();
            if !v.is_zero() {
                x.storage.insert(k, v);
            }
        }
        out.accts.insert(a, x);
    }
    out
}
pub fn world_via_bundle(pre: &World, st: &mut State<McDb>) -> World {
    use revm::database::states::bundle_state::BundleRetention;
    st.merge_transitions(BundleRetention::Reverts);
    let b = st.take_bundle();
    let mut w = pre.clone();
    for (a, acc) in b.state.iter() {
        let wiped = acc.was_destroyed();
        match &acc.info {
            None => {
                w.accts.remove(a);
            }
            // an empty account must not be written
            Some(i) if i.is_empty() => {
                w.accts.insert(*a, Acct::default());
            }
            Some(i) => {
                let e = w.accts.entry(*a).or_default();
                e.balance = i.balance;
                e.nonce = i.nonce;
                if i.is_empty_code_hash() {
                    e.code = Bytes::new();
                } else if let Some(c) = i.code.as_ref().or_else(|| b.contracts.get(&i.code_hash)) {
                    e.code = c.original_bytes();
                } else {
                    assert_eq!(alloy_primitives::keccak256(&e.code), i.code_hash, "code missing in the bundle");
                }
                if wiped {
                    e.storage.clear();
                }
                for (k, s) in acc.storage.iter() {
                    if s.present_value.is_zero() {
                        e.storage.remove(k);
                    } else {
                        e.storage.insert(*k, s.present_value);
                    }
                }
            }
        }
    }
    w
}

struct Blk {
    spec: MegaSpecId,
    mode: Mode,
    limits: BlockLimits,
}
struct Done {
    usage: Vec<Option<(Static, MegaTransactionOutcome)>>,
    h: u64,
    n: u64,
}
fn no_runtime(l: EvmTxRuntimeLimits) -> BlockLimits {
    BlockLimits::no_limits().with_tx_runtime_limits(l)
}
fn the_block(l: &BlockLimits) -> revm::context::BlockEnv {
    let mut b = block_env();
    b.basefee = 2;
    b.gas_limit = l.block_gas_limit;
    b
}

/// Runs the sequence on a block executor and checks every step against the reference.
macro_rules! drive {
    ($ex:expr, $b:expr, $w0:expr, $seq:expr, $wrap:expr) => {{
        let b: &Blk = $b;
        let mut ex = $ex;
        let hook = Arc::new(Mutex::new(($w0.clone(), vec![])));
        ex.set_state_hook(Some(Box::new(Hook(hook.clone()))));
        let mut s = Setup::new(b.spec).salt(512);
        s.limits = Some(b.limits.to_evm_tx_runtime_limits());
        s.block = the_block(&b.limits);
        let mut w = $w0.clone();
        let mut t = Totals::default();
        let mut want_receipts: Vec<(u8, bool, u64, Vec<(Address, Vec<B256>, Bytes)>, Option<u64>)> = vec![];
        let mut usage: Vec<Option<(Static, MegaTransactionOutcome)>> = vec![];
        let envs: Vec<Recovered<MegaTxEnvelope>> = vec![];
        let _ = envs;
        let mut h = vec![];
        let mut n = 0u64;
        let mut hashes = std::collections::BTreeSet::new();
        let mut stale = false;
        // envelopes live as long as held outcomes
        let arena: Vec<std::cell::OnceCell<Recovered<MegaTxEnvelope>>> = (0..$seq.len()).map(|_| std::cell::OnceCell::new()).collect();
        let mut held = vec![];
        let account = |t: &mut Totals, st: &Static, o: &MegaTransactionOutcome| {
            t.gas += o.result.gas_used() as u128;
            t.size += st.size as u128;
            if !st.deposit {
                t.da += st.da as u128;
            }
            t.data += o.data_size as u128;
            t.kv += o.kv_updates as u128;
            t.compute += o.compute_gas_used as u128;
            t.growth += o.state_growth_used as u128;
        };
        let receipt = |t: &Totals, tx: &Btx, o: &MegaTransactionOutcome, nonce: u64| {
            (tx.ty, o.result.is_success(), t.gas as u64, obs(&o.result).logs, tx.is_deposit().then_some(nonce))
        };
        for (i, (act, tx)) in $seq.iter().enumerate() {
            let env = arena[i].get_or_init(|| tx.envelope(&w));
            let enc = env.encoded_2718();
            let st = Static {
                gas_limit: tx.gas,
                size: enc.len() as u64,
                da: op_alloy_flz::tx_estimated_size_fjord_bytes(&enc),
                deposit: tx.is_deposit(),
            };
            let refused = refuse(&b.limits, &t, &st);
            // the reference outcome, on the state its predecessors left
            let mut rdb = McDb::new(&w);
            rdb.block_hash_reads = Default::default();
            let want = if refused.is_empty() {
                n += 1;
                let r = mega_run(&rdb, &s, tx.env(&w));
                hashes.extend(rdb.block_hash_reads.borrow().iter().copied());
                Some(r)
            } else {
                None
            };
            n += 1;
            let before = totals(&ex.block_limiter);
            let (err, got): (Option<BlockExecutionError>, Option<(Obs, Option<u64>)>) = match act {
                Act::Hold => match ex.run_transaction($wrap(env)) {
                    Ok(o) => {
                        let x = obs(&o.result);
                        held.push((i, o));
                        (None, Some((x, None)))
                    }
                    Err(e) => (Some(e), None),
                },
                _ => {
                    let mut seen = None;
                    let r = ex.execute_transaction_with_commit_condition($wrap(env), |r| {
                        seen = Some(obs(r));
                        if *act == Act::Exec {
                            CommitChanges::Yes
                        } else {
                            CommitChanges::No
                        }
                    });
                    match r {
                        Ok(g) => (None, Some((seen.clone().unwrap(), g))),
                        Err(e) => (Some(e), None),
                    }
                }
            };
            match (want, err, got) {
                (None, Some(e), None) => {
                    judge(&Err(e), &b.limits, &t, &st)?;
                    usage.push(None);
                }
                (None, None, _) => return bad(format!("step {i}: admitted although over {refused:?}; {st:?} at {t:?}")),
                (Some(Err(e)), Some(g), None) => {
                    // an invalid transaction
                    ensure!(why(&g, &b.limits, &t, &st).is_none(), "step {i}: refused as over a limit: {g:?}");
                    let a = match &e {
                        revm::context::result::EVMError::Transaction(x) => x.to_string(),
                        x => x.to_string(),
                    };
                    let c = g.to_string();
                    ensure!(c.contains(&a), "step {i}: error {c}, reference {a}");
                    usage.push(None);
                }
                (Some(Ok(o)), None, Some((g, used))) => {
                    ensure_eq!(g, obs(&o.result), "step {i}: outcome");
                    if *act == Act::Exec {
                        ensure_eq!(used, Some(o.result.gas_used()), "step {i}: gas returned");
                        account(&mut t, &st, &o);
                        want_receipts.push(receipt(&t, tx, &o, w.nonce(tx.from)));
                        w.commit(&o.state);
                    } else {
                        ensure_eq!(used, None, "step {i}: gas of an uncommitted transaction");
                    }
                    usage.push(Some((st, o)));
                }
                (want, e, g) => return bad(format!("step {i}: error {e:?} result {g:?}; reference {want:?}")),
            }
            if *act != Act::Exec {
                ensure_eq!(totals(&ex.block_limiter), before, "step {i}: totals without a commit");
            }
            ensure_eq!(totals(&ex.block_limiter), t, "step {i}: block totals");
            ensure_eq!(ex.receipts.len(), want_receipts.len(), "step {i}: number of receipts");
            h.push((refused, t));
        }
        // held outcomes are committed last, against what is left of the block
        for (i, o) in held {
            let (st, r) = usage[i].clone().unwrap();
            let refused = refuse(&b.limits, &t, &st);
            let depnonce = o.depositor.as_ref().map(|d| d.nonce).unwrap_or_default();
            ensure_eq!((o.tx_size, o.da_size), (st.size, st.da), "held {i}: sizes");
            let got = ex.commit_transaction_outcome(o);
            match got {
                Ok(g) => {
                    ensure!(refused.is_empty(), "held {i}: committed although over {refused:?}");
                    ensure_eq!(g, r.result.gas_used(), "held {i}: gas");
                    account(&mut t, &st, &r);
                    want_receipts.push(receipt(&t, $seq[i].1, &r, depnonce));
                    stale = true;
                    w.commit(&r.state);
                }
                Err(e) => {
                    ensure!(!refused.is_empty(), "held {i}: refused {e:?}");
                    judge(&Err(e), &b.limits, &t, &st)?;
                }
            }
            ensure_eq!(totals(&ex.block_limiter), t, "held {i}: block totals");
            h.push((refused, t));
        }
        let seen: std::collections::BTreeSet<u64> = ex.get_accessed_block_hashes().keys().copied().collect();
        ensure_eq!(seen, hashes, "block hashes read");
        let (evm, res) = match ex.finish() {
            Ok(x) => x,
            Err(e) => return bad(format!("finish failed: {e:?}")),
        };
        let got_receipts: Vec<_> = res
            .receipts
            .iter()
            .map(|r| {
                let (ty, dn) = match r {
                    OpReceiptEnvelope::Legacy(_) => (0u8, None),
                    OpReceiptEnvelope::Eip2930(_) => (1, None),
                    OpReceiptEnvelope::Eip1559(_) => (2, None),
                    OpReceiptEnvelope::Eip7702(_) => (4, None),
                    OpReceiptEnvelope::Deposit(d) => {
                        assert_eq!(d.receipt.deposit_receipt_version, Some(1), "deposit receipt version");
                        (T_DEPOSIT, d.receipt.deposit_nonce)
                    }
                };
                assert!(matches!(r.status_or_post_state(), Eip658Value::Eip658(_)));
                let logs = r.logs().iter().map(|l| (l.address, l.data.topics().to_vec(), l.data.data.clone())).collect();
                (ty, r.status(), r.cumulative_gas_used(), logs, dn)
            })
            .collect();
        ensure_eq!(got_receipts, want_receipts, "receipts");
        ensure_eq!(res.gas_used as u128, t.gas, "gas used by the block");
        let (db, env) = evm.finish();
        ensure_eq!(env.cfg_env.spec, b.spec, "spec returned");
        if !stale {
            let (hw, src) = hook.lock().unwrap().clone();
            ensure_eq!(hw, w, "state reported to the hook");
            let txs: Vec<_> = src.iter().filter(|x| x.starts_with("Transaction")).cloned().collect();
            let want: Vec<_> = (0..want_receipts.len()).map(|i| format!("Transaction({i})")).collect();
            ensure_eq!(txs, want, "sources reported to the hook");
            let via = world_via_state(db, &[$w0, &w]);
            ensure_eq!(via, w, "state read after the block");
            let via = world_via_bundle($w0, db);
            ensure_eq!(via, w, "bundle of the block");
        }
        h.push((vec![], t));
        Ok(Done { usage, h: hash_dbg(&(h, got_receipts, hash_dbg(&w))), n })
    }};
}

fn run_block(b: &Blk, w0: &World, seq: &[(Act, &Btx)]) -> Result<Done, Bad> {
    let mut envs = McEnvs::default();
    envs.salt = McSalt::uniform(512);
    let mut st = State::builder().with_database(McDb::new(w0)).with_bundle_update().build();
    st.set_state_clear_flag(true);
    let fac = MegaBlockExecutorFactory::new(
        forks_for(b.spec),
        MegaEvmFactory::new().with_external_env_factory(envs.clone()),
        OpAlloyReceiptBuilder::default(),
    );
    let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(b.spec);
    cfg.chain_id = 1;
    let env = EvmEnv::new(cfg, the_block(&b.limits));
    let ctx = MegaBlockExecutionCtx::new(B256::repeat_byte(9), Some(B256::ZERO), Bytes::new(), b.limits);
    match b.mode {
        Mode::Plain => drive!(fac.create_executor(&mut st, ctx, env), b, w0, seq, |e| e),
        Mode::Enriched => {
            fn en(e: &Recovered<MegaTxEnvelope>) -> EnrichedMegaTx<&Recovered<MegaTxEnvelope>> {
                EnrichedMegaTx::new_slow(e)
            }
            drive!(fac.create_executor(&mut st, ctx, env), b, w0, seq, en)
        }
        Mode::Inspected => {
            drive!(fac.create_executor_with_inspector(&mut st, ctx, env, NoOpInspector), b, w0, seq, |e| e)
        }
    }
}

// ------------------------------------------------------------------ C22

/// A wrapped transaction is the transaction it wraps, with the hash and sizes it was given.
fn wrappers(run: &Run) {
    use alloy_consensus::{Transaction, Typed2718};
    use alloy_evm::{IntoTxEnv, RecoveredTx};
    use mega_evm::MegaTransactionExt;
    let txs = menu(true);
    let sizes = [None, Some((0u64, 0u64)), Some((1, 0)), Some((100, 5)), Some((5, 100)), Some((u64::MAX, 1)), Some((7, u64::MAX))];
    let k = sizes.len() as u64;
    run.space(
        "wrapped transactions",
        "every transaction of the menu, wrapped with computed or given sizes",
        txs.len() as u64 * k,
        |i| format!("{} {:?}", txs[(i / k) as usize].name, sizes[(i % k) as usize]),
        |i| {
            let e = &txs[(i / k) as usize].envelope(&block_world());
            let bytes = e.encoded_2718();
            let real = (op_alloy_flz::tx_estimated_size_fjord_bytes(&bytes), bytes.len() as u64);
            ensure_eq!((MegaTransactionExt::estimated_da_size(e), MegaTransactionExt::tx_size(e)), real, "sizes");
            ensure_eq!((e.inner().estimated_da_size(), MegaTransactionExt::tx_size(e.inner())), real, "sizes of the envelope");
            let hash = e.inner().tx_hash();
            ensure_eq!(MegaTransactionExt::tx_hash(e), hash, "hash");
            let (x, want) = match sizes[(i % k) as usize] {
                None => (EnrichedMegaTx::new_slow(e), (e.trie_hash(), real)),
                Some((da, size)) => (EnrichedMegaTx::new(e, B256::repeat_byte(6), da, size), (B256::repeat_byte(6), (da, size))),
            };
            ensure_eq!((MegaTransactionExt::tx_hash(&x), (x.da_size, x.tx_size)), want, "what the wrapper holds");
            let view = |t: &dyn Transaction| {
                (
                    (t.chain_id(), t.nonce(), t.gas_limit(), t.gas_price(), t.max_fee_per_gas(), t.max_priority_fee_per_gas(), t.max_fee_per_blob_gas(), t.priority_fee_or_price()),
                    [None, Some(0), Some(2), Some(5), Some(100)].map(|b| t.effective_gas_price(b)),
                    [0, 1, 2, 6, 7, 8, 100].map(|b| t.effective_tip_per_gas(b)),
                    (t.is_dynamic_fee(), t.kind(), t.is_create(), t.value(), t.input().clone(), t.access_list().cloned()),
                    (t.blob_versioned_hashes().map(|x| x.to_vec()), t.authorization_list().map(|x| x.to_vec()), t.authorization_count(), t.to(), t.function_selector().copied()),
                    (t.blob_count(), t.blob_gas_used(), t.ty(), t.is_legacy(), t.is_eip2930(), t.is_eip1559(), t.is_eip4844(), t.is_eip7702()),
                )
            };
            let y = EnrichedMegaTx::new(e.inner().clone(), hash, 1, 2);
            ensure_eq!(format!("{:?}", view(&y)), format!("{:?}", view(e.inner())), "contents");
            let r: &EnrichedMegaTx<&Recovered<MegaTxEnvelope>> = &x;
            ensure_eq!(RecoveredTx::<MegaTxEnvelope>::tx(r), e.inner(), "wrapped transaction");
            ensure_eq!(*RecoveredTx::<MegaTxEnvelope>::signer(r), e.signer(), "signer");
            let (a, b): (MegaTransaction, MegaTransaction) = (x.into_tx_env(), e.into_tx_env());
            ensure_eq!(a, b, "EVM transaction");
            Ok(Case { state: hash_dbg(&want), transitions: 1, traces: 1 })
        },
    );
}

pub fn c22(run: &Run) {
    wrappers(run);
    // the limiter alone: every pair of resources, all sequences of three transactions
    let pairs: Vec<(usize, usize)> = (0..7).flat_map(|i| (i + 1..7).map(move |j| (i, j))).collect();
    let vals = [0u64, 1, 2];
    let blims: &[u64] = run.pick(&[0, 1, 3, u64::MAX], &[0, 1, 2, 3, 4, u64::MAX]);
    let tlims: &[u64] = run.pick(&[1, u64::MAX], &[1, 2, u64::MAX]);
    let per_tx = (vals.len() * vals.len() * 2) as u64;
    let n = 3;
    let mut radix = vec![pairs.len() as u64, blims.len() as u64, blims.len() as u64, tlims.len() as u64, tlims.len() as u64];
    radix.extend(std::iter::repeat_n(per_tx, n));
    let dec = |i: u64| {
        let d = digits(i, &radix);
        let p = pairs[d[0]];
        let mut l = BlockLimits::no_limits();
        l = with_block_limit(l, p.0, blims[d[1]]);
        l = with_block_limit(l, p.1, blims[d[2]]);
        l = with_tx_limit(l, p.0, tlims[d[3]]);
        l = with_tx_limit(l, p.1, tlims[d[4]]);
        let seq: Vec<Raw> = d[5..].iter().map(|x| raw_tx(p, vals[x % 3], vals[x / 3 % 3], x / 9 == 1)).collect();
        (p, l, seq)
    };
    // transaction limits exist for three resources only
    let skip = |i: u64| {
        let d = digits(i, &radix[..5]);
        let p = pairs[d[0]];
        (p.0 > 2 && d[3] > 0) || (p.1 > 2 && d[4] > 0)
    };
    run.space(
        "limiter",
        &format!("all sequences of {n} transactions using 0..2 of any two of the {RES:?}, deposits or not, under block limits {blims:?} and transaction limits {tlims:?}"),
        radix.iter().product(),
        |i| format!("{:?}", dec(i)),
        |i| {
            if skip(i) {
                return Ok(Case::default());
            }
            let (_, l, seq) = dec(i);
            limiter_seq(l, &seq)
        },
    );
    // the same with values at the end of the range, and gas limits above the gas used
    let big = [0u64, 1, u64::MAX / 2 + 1, u64::MAX - 1, u64::MAX];
    let radix2 = [7u64, 5, 5, 5, 5, 5, 5, 2];
    let dec2 = |i: u64| {
        let d = digits(i, &radix2);
        let mut l = BlockLimits::no_limits();
        l = with_block_limit(l, d[0], big[d[1]]);
        l = with_tx_limit(l, d[0], big[d[2]]);
        let mk = |a: usize, b: usize| {
            let mut r = raw_tx((d[0], d[0]), big[a], big[a], d[7] == 1);
            if d[0] == 0 {
                r.s.gas_limit = big[b].max(r.used[0]);
            }
            r
        };
        (l, vec![mk(d[3], d[4]), mk(d[5], d[6])])
    };
    run.space(
        "limiter, extreme values",
        &format!("pairs of transactions with usage and limits in {big:?}"),
        radix2.iter().product(),
        |i| format!("{:?}", dec2(i)),
        |i| {
            let (l, seq) = dec2(i);
            limiter_seq(l, &seq)
        },
    );
    // the executor: every limit at every boundary that the sequence itself defines
    let w0 = block_world();
    let m: Vec<Btx> = menu(false);
    let pick: Vec<Btx> = if run.thorough() {
        m.clone()
    } else {
        m.iter()
            .filter(|x| {
                ["write+log", "unknown script", "new slots over the growth limit", "clear slot", "transfer to a new account", "rejected: nonce", "deposit", "contract creation", "system transaction", "out of gas"]
                    .contains(&x.name.as_str())
            })
            .cloned()
            .collect()
    };
    let boundaries = |name: &str, n: usize, specs: &[MegaSpecId], modes: &[Mode], pick: &[Btx], stride: usize| {
        let acts = [Act::Exec, Act::Hold];
        let a = pick.len() as u64 * 2;
        let mut radix = vec![specs.len() as u64, modes.len() as u64];
        radix.extend(std::iter::repeat_n(a, n));
        let dec = |i: u64| {
            let d = digits(i, &radix);
            let b = Blk { spec: specs[d[0]], mode: modes[d[1]], limits: no_runtime(hist_limits()) };
            let seq: Vec<(Act, &Btx)> = d[2..].iter().map(|x| (acts[x % 2], &pick[x / 2])).collect();
            (b, seq)
        };
        run.space(
            name,
            &format!("all sequences of {n} of {} transactions, each committed at once or after the others, x {} specs x {modes:?}; each of the 7 block and 3 transaction limits at every partial sum of the usage and one below and above", pick.len(), specs.len()),
            radix.iter().product(),
            |i| {
                let (b, q) = dec(i);
                format!("{:?} {:?} {:?}", b.spec, b.mode, q.iter().map(|(a, x)| format!("{a:?} {}", x.name)).collect::<Vec<_>>())
            },
            |i| {
                let (b, q) = dec(i);
                at_boundaries(&b, &w0, &q, stride, i)
            },
        );
    };
    let three = [MegaSpecId::EQUIVALENCE, MegaSpecId::MINI_REX, MegaSpecId::REX3];
    let all_modes = [Mode::Plain, Mode::Enriched, Mode::Inspected];
    boundaries("executor at the boundaries, pairs", 2, &ALL_SPECS, &all_modes, &pick, 1);
    boundaries("executor at the boundaries, triples", 3, run.pick(&three[2..], &three[..]), &[Mode::Plain], &pick, 1);
    // long blocks: two transactions taking turns
    let (reps, specs): (usize, &[MegaSpecId]) = run.pick((8, &three[2..]), (20, &three[..]));
    let pick: Vec<Btx> = pick.into_iter().chain(extras()).collect();
    let (a, k) = (pick.len() as u64, specs.len() as u64);
    run.space(
        "long blocks",
        &format!("all pairs of {a} transactions, {reps} times in turn, x {k} specs, with each limit at every partial sum of the usage and one below and above"),
        a * a * k,
        |i| format!("{:?} {} {}", specs[(i % k) as usize], pick[(i / k / a) as usize].name, pick[(i / k % a) as usize].name),
        |i| {
            let b = Blk { spec: specs[(i % k) as usize], mode: Mode::Plain, limits: no_runtime(hist_limits()) };
            let q = [(Act::Exec, &pick[(i / k / a) as usize]), (Act::Exec, &pick[(i / k % a) as usize])].repeat(reps);
            at_boundaries(&b, &w0, &q, 1, i)
        },
    );
    let radix3 = [7u64, 3, 3, 2, 2, 50];
    run.space(
        "limiter, long sequences",
        "60 transactions of two kinds in turn, using 0..2 of one resource, under every block limit up to 49",
        radix3.iter().product(),
        |i| format!("{:?}", digits(i, &radix3)),
        |i| {
            let d = digits(i, &radix3);
            let l = with_block_limit(BlockLimits::no_limits(), d[0], d[5] as u64);
            let seq: Vec<Raw> = (0..60).map(|j| if j % 2 == 0 { raw_tx((d[0], d[0]), d[1] as u64, d[1] as u64, d[3] == 1) } else { raw_tx((d[0], d[0]), d[2] as u64, d[2] as u64, d[4] == 1) }).collect();
            limiter_seq(l, &seq)
        },
    );
}

/// Runs a sequence without block limits, then with each limit at every value where its verdict
/// can change.
fn at_boundaries(b: &Blk, w0: &World, q: &[(Act, &Btx)], stride: usize, i: u64) -> CaseResult {
    let d = run_block(b, w0, q)?;
    let (mut n, mut h) = (d.n, vec![d.h]);
    let mut tried = std::collections::BTreeSet::new();
    for r in 0..10usize {
        let mut sum = 0u64;
        for (st, o) in d.usage.iter().flatten() {
            let x = match r {
                0 => o.result.gas_used(),
                1 => st.size,
                2 if st.deposit => 0,
                2 => st.da,
                3 => o.data_size,
                4 => o.kv_updates,
                5 => o.compute_gas_used,
                6 => o.state_growth_used,
                7 => st.gas_limit,
                8 => st.size,
                _ => st.da,
            };
            // a gas limit has to fit into what is left
            let at = match r {
                0 => sum + st.gas_limit,
                1..=6 => sum + x,
                _ => x,
            };
            for v in [at.saturating_sub(1), at, at + 1] {
                tried.insert((r, v));
            }
            sum += x;
        }
    }
    for (k, (r, v)) in tried.into_iter().enumerate() {
        if (k + i as usize) % stride != 0 {
            continue;
        }
        let l = if r < 7 { with_block_limit(b.limits, r, v) } else { with_tx_limit(b.limits, r - 7, v) };
        let bb = Blk { spec: b.spec, mode: b.mode, limits: l };
        let d = run_block(&bb, w0, q).map_err(|e| Bad { what: format!("limit {r} ({}) = {v}: {}", RES[r % 7], e.what) })?;
        n += d.n;
        h.push(d.h);
    }
    Ok(Case { state: hash_of(&h), transitions: n, traces: n })
}

// ------------------------------------------------------------------ C23

/// The alloy factory trait: the EVM is built separately and enforces its spec's own limits.
fn alloy_block(spec: MegaSpecId, w0: &World, seq: &[(Act, &Btx)]) -> CaseResult {
    use alloy_evm::{block::BlockExecutorFactory, EvmFactory};
    let mut envs = McEnvs::default();
    envs.salt = McSalt::uniform(512);
    let mut st = State::builder().with_database(McDb::new(w0)).with_bundle_update().build();
    st.set_state_clear_flag(true);
    let limits = BlockLimits::no_limits();
    let fac = MegaBlockExecutorFactory::new(
        forks_for(spec),
        MegaEvmFactory::new().with_external_env_factory(envs),
        OpAlloyReceiptBuilder::default(),
    );
    let mut s = Setup::new(spec).salt(512);
    s.block = the_block(&limits);
    let mut w = w0.clone();
    let (mut gas, mut cum) = (0, vec![]);
    {
        let evm = fac.evm_factory().create_evm(&mut st, EvmEnv::new(CfgEnv::new_with_spec(spec), the_block(&limits)));
        let ctx = MegaBlockExecutionCtx::new(B256::repeat_byte(9), Some(B256::ZERO), Bytes::new(), limits);
        let mut ex = BlockExecutorFactory::create_executor(&fac, evm, ctx);
        for (i, (act, tx)) in seq.iter().enumerate() {
            let env = tx.envelope(&w);
            let want = mega_run(&McDb::new(&w), &s, tx.env(&w));
            let mut seen = None;
            let got = ex.execute_transaction_with_commit_condition(&env, |r| {
                seen = Some(obs(r));
                if *act == Act::Exec {
                    CommitChanges::Yes
                } else {
                    CommitChanges::No
                }
            });
            match (got, want) {
                (Ok(g), Ok(o)) => {
                    ensure_eq!(seen, Some(obs(&o.result)), "step {i}: outcome");
                    ensure_eq!(g.is_some(), *act == Act::Exec, "step {i}: committed");
                    if *act == Act::Exec {
                        gas += o.result.gas_used();
                        cum.push((o.result.is_success(), gas));
                        w.commit(&o.state);
                    }
                }
                (Err(_), Err(_)) => {}
                (g, o) => return bad(format!("step {i}: {g:?}, reference {o:?}")),
            }
        }
        let (_, res) = match ex.finish() {
            Ok(x) => x,
            Err(e) => return bad(format!("finish failed: {e:?}")),
        };
        ensure_eq!(res.receipts.iter().map(|r| (r.status(), r.cumulative_gas_used())).collect::<Vec<_>>(), cum, "receipts");
        ensure_eq!(res.gas_used, gas, "gas used by the block");
    }
    ensure_eq!(world_via_state(&mut st, &[w0, &w]), w, "state read after the block");
    ensure_eq!(world_via_bundle(w0, &mut st), w, "bundle of the block");
    Ok(Case { state: hash_dbg(&(cum, w)), transitions: seq.len() as u64 * 2, traces: seq.len() as u64 })
}

pub fn c23(run: &Run) {
    let w0 = block_world();
    let m = menu(true);
    let specs: Vec<_> = ALL_SPECS.into_iter().filter(|s| rank(*s) == 0 || rank(*s) >= R_REX1).collect();
    let a = m.len() as u64 * 2;
    let radix = [specs.len() as u64, a, a];
    let dec = |i: u64| {
        let d = digits(i, &radix);
        let act = |x: usize| if x % 2 == 0 { Act::Exec } else { Act::Drop };
        (specs[d[0]], vec![(act(d[1]), &m[d[1] / 2]), (act(d[2]), &m[d[2] / 2])])
    };
    run.space(
        "alloy factory",
        &format!("all pairs of {} transactions, each committed or dropped, x {} specs, through the alloy factory trait", m.len(), specs.len()),
        radix.iter().product(),
        |i| {
            let (b, q) = dec(i);
            format!("{b:?} {:?}", q.iter().map(|(a, x)| format!("{a:?} {}", x.name)).collect::<Vec<_>>())
        },
        |i| {
            let (b, q) = dec(i);
            alloy_block(b, &w0, &q)
        },
    );
    let sp = |name: &str, n: u32, specs: &[MegaSpecId], modes: &[Mode], m: Vec<Btx>| {
        let acts = [Act::Exec, Act::Drop];
        let a = m.len() as u64 * 2;
        let mut radix = vec![specs.len() as u64, modes.len() as u64];
        radix.extend(std::iter::repeat_n(a, n as usize));
        let dec = |i: u64| {
            let d = digits(i, &radix);
            let b = Blk { spec: specs[d[0]], mode: modes[d[1]], limits: no_runtime(hist_limits()) };
            let seq: Vec<(Act, &Btx)> = d[2..].iter().map(|x| (acts[x % 2], &m[x / 2])).collect();
            (b, seq)
        };
        run.space(
            name,
            &format!("all sequences of {n} of {} transactions, each committed or dropped, x {} specs x {modes:?}", m.len(), specs.len()),
            radix.iter().product(),
            |i| {
                let (b, q) = dec(i);
                format!("{:?} {:?} {:?}", b.spec, b.mode, q.iter().map(|(a, x)| format!("{a:?} {}", x.name)).collect::<Vec<_>>())
            },
            |i| {
                let (b, q) = dec(i);
                let d = run_block(&b, &w0, &q)?;
                Ok(Case { state: d.h, transitions: d.n, traces: q.len() as u64 })
            },
        );
    };
    use Mode::*;
    let late = [MegaSpecId::EQUIVALENCE, MegaSpecId::REX1, MegaSpecId::REX2, MegaSpecId::REX3, MegaSpecId::REX4];
    sp("pairs", 2, &late, &[Plain, Enriched, Inspected], menu(true));
    sp("pairs, early specs", 2, &[MegaSpecId::MINI_REX, MegaSpecId::REX], &[Plain, Enriched, Inspected], menu(false));
    sp("triples", 3, run.pick(&[MegaSpecId::REX3][..], &late[..]), &[Plain], menu(true));
    let pick: Vec<Btx> = menu(true).into_iter().chain(extras()).collect();
    let (reps, specs): (usize, &[MegaSpecId]) = run.pick((4, &[MegaSpecId::EQUIVALENCE, MegaSpecId::REX4]), (12, &late));
    let (a, k) = (pick.len() as u64, specs.len() as u64 * 3);
    run.space(
        "long blocks",
        &format!("all pairs of {a} transactions, {reps} times in turn, the second committed always, never or every other time, x {} specs", specs.len()),
        a * a * k,
        |i| format!("{:?} {} {} {}", specs[(i % k / 3) as usize], pick[(i / k / a) as usize].name, pick[(i / k % a) as usize].name, i % 3),
        |i| {
            let b = Blk { spec: specs[(i % k / 3) as usize], mode: Plain, limits: no_runtime(hist_limits()) };
            let (x, y) = (&pick[(i / k / a) as usize], &pick[(i / k % a) as usize]);
            let q: Vec<(Act, &Btx)> = (0..2 * reps)
                .map(|j| match (j % 2, i % 3) {
                    (0, _) => (Act::Exec, x),
                    (_, 0) => (Act::Exec, y),
                    (_, 1) => (Act::Drop, y),
                    _ => (if j % 4 == 1 { Act::Exec } else { Act::Drop }, y),
                })
                .collect();
            let d = run_block(&b, &w0, &q)?;
            Ok(Case { state: d.h, transitions: d.n, traces: q.len() as u64 })
        },
    );
    if run.thorough() {
        sp("triples, early specs", 3, &[MegaSpecId::MINI_REX, MegaSpecId::REX], &[Plain, Inspected], menu(false));
        sp("triples, inspected", 3, &late, &[Enriched, Inspected], menu(true));
    }
}

// ------------------------------------------------------------------ C24

const FORKS: [MegaHardfork; 8] = [
    MegaHardfork::MiniRex,
    MegaHardfork::MiniRex1,
    MegaHardfork::MiniRex2,
    MegaHardfork::Rex,
    MegaHardfork::Rex1,
    MegaHardfork::Rex2,
    MegaHardfork::Rex3,
    MegaHardfork::Rex4,
];
const FORK_SPECS: [MegaSpecId; 8] = [
    MegaSpecId::MINI_REX,
    MegaSpecId::EQUIVALENCE,
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];
/// The hashes the contracts were published with.
const H_ORACLE_1_0: B256 = alloy_primitives::b256!("e9b044afb735a0f569faeb248088b4f267578f60722f87d06ec3867b250a2c34");
const H_ORACLE_1_1: B256 = alloy_primitives::b256!("06df675a69e53ea2a3c948521e330b3801740fede324a1cef2044418f8e09242");
const H_TIMESTAMP: B256 = alloy_primitives::b256!("1b2df8ca5350cd7106d67ed95532584526f97a5ca267c8eef73a1831f53720f2");
const H_KEYLESS: B256 = alloy_primitives::b256!("55020d41649acf7a84add6e628b887f802218d9ac86f142ef0994da43ea5eeb6");
const HISTORY: Address = alloy_eips::eip2935::HISTORY_STORAGE_ADDRESS;
const BEACON: Address = alloy_eips::eip4788::BEACON_ROOTS_ADDRESS;

/// The published code behind a hash.
fn published(h: B256) -> Result<Bytes, Bad> {
    let all = [
        mega_system_contracts::oracle::V1_0_0_CODE,
        mega_system_contracts::oracle::V1_1_0_CODE,
        mega_evm::HIGH_PRECISION_TIMESTAMP_ORACLE_CODE,
        mega_system_contracts::keyless_deploy::V1_0_0_CODE,
    ];
    thread_local! {
        static HASHES: std::cell::RefCell<Vec<(B256, Bytes)>> = const { std::cell::RefCell::new(vec![]) };
    }
    HASHES.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_empty() {
            *c = all.into_iter().map(|b| (alloy_primitives::keccak256(&b), b)).collect();
        }
        match c.iter().find(|(x, _)| *x == h) {
            Some((_, b)) => Ok(b.clone()),
            None => bad(format!("no system contract has the published code hash {h}")),
        }
    })
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Pre {
    Absent,
    Funded,
    Other,
    Code(B256),
}
fn put(w: &mut World, a: Address, p: Pre) -> Result<(), Bad> {
    match p {
        Pre::Absent => {}
        Pre::Funded => {
            w.set(a, 123, 0, &[]);
        }
        Pre::Other => {
            let x = w.set(a, 0, 1, &[0x60, 0x01, 0x00]);
            x.storage.insert(U256::from(3), U256::from(4));
            x.storage.insert(U256::from(5), U256::from(6));
        }
        Pre::Code(h) => {
            let c = published(h)?;
            let x = w.set(a, 9, 2, &c);
            x.storage.insert(U256::from(3), U256::from(44));
            x.storage.insert(U256::ZERO, U256::from(45));
        }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug)]
struct Head {
    number: u64,
    time: u64,
    root: Option<B256>,
    parent: B256,
    active: u16,
    cap: u64,
    /// Prague scheduled, Cancun scheduled, an index into [`PARIS`]
    base: (bool, bool, usize),
}
/// (Paris, Constantinople, Byzantium, reward in ETH)
const PARIS: [(u8, bool, bool, u64); 7] =
    [(0, true, true, 0), (1, true, true, 2), (1, false, true, 3), (1, false, false, 5), (2, true, true, 2), (3, true, true, 0), (3, false, false, 0)];
const BASE: (bool, bool, usize) = (true, true, 0);
fn spec_of(active: u16) -> MegaSpecId {
    (0..8).rev().find(|i| active >> i & 1 == 1).map(|i| FORK_SPECS[i]).unwrap_or(MegaSpecId::EQUIVALENCE)
}
/// The state the pre-block phase should leave, or None when the block is invalid.
/// `skip` leaves out the parent-hash (bit 0) or beacon-root (bit 1) call.
fn pre_reference(w: &World, h: &Head, skip: u8) -> Result<Option<World>, Bad> {
    let mut w = w.clone();
    let (prague, cancun, _) = h.base;
    if cancun && (h.root.is_none() || h.number == 0 && !h.root.unwrap().is_zero()) {
        return Ok(None);
    }
    let root = h.root.unwrap_or_default();
    let write = |w: &mut World, a: Address, k: u64, v: U256| {
        let e = w.accts.get_mut(&a).unwrap();
        if v.is_zero() {
            e.storage.remove(&U256::from(k));
        } else {
            e.storage.insert(U256::from(k), v);
        }
    };
    if h.number != 0 {
        if skip & 1 == 0 && prague && w.acct(HISTORY).code == alloy_eips::eip2935::HISTORY_STORAGE_CODE {
            write(&mut w, HISTORY, (h.number - 1) % 8191, U256::from_be_bytes(h.parent.0));
        }
        if skip & 2 == 0 && cancun && w.acct(BEACON).code == alloy_eips::eip4788::BEACON_ROOTS_CODE {
            write(&mut w, BEACON, h.time % 8191, U256::from(h.time));
            write(&mut w, BEACON, h.time % 8191 + 8191, U256::from_be_bytes(root.0));
        }
    }
    let mut deploy = |a: Address, hash: B256| -> Result<(), Bad> {
        w.accts.entry(a).or_default().code = published(hash)?;
        Ok(())
    };
    if h.active & 1 == 1 {
        deploy(ORACLE, if h.active >> 5 & 1 == 1 { H_ORACLE_1_1 } else { H_ORACLE_1_0 })?;
        deploy(HP_TIMESTAMP, H_TIMESTAMP)?;
    }
    if h.active >> 5 & 1 == 1 {
        deploy(KEYLESS, H_KEYLESS)?;
    }
    Ok(Some(w))
}
/// Storage of an upgraded contract, as the block that upgrades it sees it.
fn forget_upgraded(pre: &World, w: &World) -> World {
    let mut w = w.clone();
    for a in [ORACLE, HP_TIMESTAMP, KEYLESS] {
        let (x, y) = (pre.acct(a), w.acct(a));
        if x.code != y.code && !x.storage.is_empty() {
            w.accts.get_mut(&a).unwrap().storage.clear();
        }
    }
    w
}
/// One block's pre-execution phase; returns the state the next block starts from.
fn pre_block(run: &Run, w: &World, h: &Head, direct: bool) -> Result<World, Bad> {
    let spec = spec_of(h.active);
    let mut forks = MegaHardforkConfig::new();
    for (i, f) in FORKS.iter().enumerate() {
        if h.active >> i & 1 == 1 {
            forks = forks.with(*f, ForkCondition::Timestamp(h.time));
        } else if (i as u64 + h.number) % 2 == 0 {
            forks = forks.with(*f, ForkCondition::Timestamp(h.time + 1));
        }
    }
    {
        use alloy_hardforks::EthereumHardfork as E;
        let far = ForkCondition::Timestamp(h.time + 1);
        if !h.base.0 {
            forks = forks.with(E::Prague, if h.number % 2 == 0 { far } else { ForkCondition::Never });
        }
        if !h.base.1 {
            forks = forks.with(E::Cancun, if h.number % 2 == 0 { far } else { ForkCondition::Never });
        }
        let (paris, con, byz, _) = PARIS[h.base.2];
        let ttd = |n| ForkCondition::TTD { activation_block_number: n, fork_block: None, total_difficulty: U256::from(7) };
        match paris {
            0 => {}
            1 => forks = forks.with(E::Paris, ForkCondition::Never),
            2 => forks = forks.with(E::Paris, ttd(h.number + 1)),
            _ => forks = forks.with(E::Paris, ttd(h.number)),
        }
        if !con {
            forks = forks.with(E::Constantinople, ForkCondition::Block(h.number + 1)).with(E::Petersburg, ForkCondition::Block(h.number + 1));
        }
        if !byz {
            forks = forks.with(E::Byzantium, ForkCondition::Block(h.number + 1));
        }
    }
    // the block itself turns the removal of empty accounts on
    let mut st = State::builder().with_database(McDb::new(w)).with_bundle_update().without_state_clear().build();
    let mut envs = McEnvs::default();
    envs.salt = McSalt::uniform(h.cap);
    let fac = MegaBlockExecutorFactory::new(
        forks,
        MegaEvmFactory::new().with_external_env_factory(envs),
        OpAlloyReceiptBuilder::default(),
    );
    let mut b = block_env();
    (b.number, b.timestamp) = (U256::from(h.number), U256::from(h.time));
    b.gas_limit = 10_000_000_000;
    let limits = BlockLimits::no_limits()
        .with_tx_runtime_limits(EvmTxRuntimeLimits::from_spec(spec))
        .with_block_gas_limit(b.gas_limit);
    let ctx = MegaBlockExecutionCtx::new(h.parent, h.root, Bytes::new(), limits);
    let mut ex = fac.create_executor(&mut st, ctx, EvmEnv::new(CfgEnv::new_with_spec(spec), b));
    let hook = Arc::new(Mutex::new((w.clone(), vec![])));
    ex.set_state_hook(Some(Box::new(Hook(hook.clone()))));
    let got = if direct {
        ex.apply_pre_execution_changes()
    } else {
        // computed twice, committed once
        let first = ex.pre_execution_changes().map(|v| v.len());
        let second = ex.pre_execution_changes();
        match (&first, &second) {
            (Ok(a), Ok(b)) => ensure_eq!(*a, b.len(), "changes computed twice"),
            (Err(_), Err(_)) => {}
            (a, b) => return bad(format!("changes computed twice: {a:?} {b:?}")),
        }
        second.and_then(|o| ex.commit_system_call_outcomes(o))
    };
    let want = pre_reference(w, h, 0)?;
    let ok = got.is_ok();
    if ok {
        // from now on empty accounts vanish
        let mut acc = revm::state::Account::default();
        acc.mark_touch();
        ex.evm_mut().db_mut().load_cache_account(NONE2).map_err(|e| Bad { what: format!("load {e:?}") })?;
        let o = mega_evm::MegaSystemCallOutcome { source: StateChangeSource::Transaction(0), state: [(NONE2, acc)].into_iter().collect() };
        ex.commit_system_call_outcomes(vec![o]).map_err(|e| Bad { what: format!("commit {e:?}") })?;
    }
    ensure_eq!(ok, want.is_some(), "whether the block is valid ({got:?})");
    ensure_eq!(totals(&ex.block_limiter), Totals::default(), "block totals after the pre-block phase");
    let (evm, res) = ex.finish().map_err(|e| Bad { what: format!("finish {e:?}") })?;
    ensure_eq!(res.gas_used, 0, "gas used by an empty block");
    ensure!(res.receipts.is_empty(), "receipts of an empty block");
    let (db, _) = evm.finish();
    // the end of the block
    let rewarded = |mut w: World| {
        let reward = U256::from(PARIS[h.base.2].3) * U256::from(ETHER);
        if !reward.is_zero() {
            w.accts.entry(COINBASE).or_default().balance += reward;
        }
        w
    };
    let mut want = rewarded(want.unwrap_or_else(|| w.clone()));
    let seen = world_via_state(db, &[w, &want]);
    if ok && seen != want && h.cap >= 1 << 20 && rank(spec) >= R_MINI {
        for skip in 1..4 {
            let x = rewarded(pre_reference(w, h, skip)?.unwrap());
            if x == seen {
                run.known(
                    "system_call_out_of_gas_in_large_bucket",
                    "the parent-hash or beacon-root call writes a new slot in a large bucket, runs out of its 30,000,000 gas and records nothing",
                )?;
                want = x;
                break;
            }
        }
    }
    if seen != want {
        if seen == forget_upgraded(w, &want) {
            run.known("upgrade_hides_storage", "within the block that replaces a system contract's code, the contract's storage reads as zero")?;
        } else {
            return bad(format!("state after the pre-block phase: {seen:?}\nreference {want:?}"));
        }
    }
    ensure_eq!(world_via_bundle(w, db), want, "bundle after the pre-block phase");
    let hooked = hook.lock().unwrap().0.clone();
    // (upgrade_hides_storage again)
    if hooked != forget_upgraded(w, &want) {
        ensure_eq!(hooked, want, "changes reported to the state hook");
    }
    Ok(want)
}

pub fn c24(run: &Run) {
    super::equiv::system_calls(run, &REX_SPECS);
    let oracle_pre = [Pre::Absent, Pre::Funded, Pre::Other, Pre::Code(H_ORACLE_1_0), Pre::Code(H_ORACLE_1_1)];
    let ts_pre = [Pre::Absent, Pre::Funded, Pre::Other, Pre::Code(H_TIMESTAMP)];
    let kl_pre = [Pre::Absent, Pre::Funded, Pre::Other, Pre::Code(H_KEYLESS)];
    let r1 = B256::repeat_byte(0x5a);
    let world = |o: Pre, t: Pre, k: Pre, eip: usize| -> Result<World, Bad> {
        let mut w = base_world();
        w.set(COINBASE, 5, 2, &[]);
        put(&mut w, ORACLE, o)?;
        put(&mut w, HP_TIMESTAMP, t)?;
        put(&mut w, KEYLESS, k)?;
        match eip {
            0 => {}
            1 | 3 => {
                w.set(HISTORY, 0, 1, &alloy_eips::eip2935::HISTORY_STORAGE_CODE);
                w.set(BEACON, 0, 1, &alloy_eips::eip4788::BEACON_ROOTS_CODE);
                if eip == 3 {
                    // every slot the blocks below write is already taken
                    for k in 0..8191u64 {
                        if k < 4 || k > 8188 || (900..1100).contains(&k) {
                            w.accts.get_mut(&HISTORY).unwrap().storage.insert(U256::from(k), U256::from(7));
                        }
                    }
                }
            }
            // contracts at these addresses that fail
            _ => {
                w.set(HISTORY, 0, 1, &Asm::default().sstore(1, 1).push(0).push(0).op(0xfd).build());
                w.set(BEACON, 0, 1, &[Asm::default().sstore(1, 1).build(), vec![0xfe]].concat());
            }
        }
        Ok(w)
    };
    // (1) every subset of active forks on every initial state, one block
    let radix = [256u64, 5, 4, 4, 2, 2];
    let dec = |i: u64| {
        let d = digits(i, &radix);
        let h = Head { number: 1000 + d[5] as u64, time: 1_800_000_000, root: Some(r1), parent: r1, active: d[0] as u16, cap: 256, base: BASE };
        (h, oracle_pre[d[1]], ts_pre[d[2]], kl_pre[d[3]], d[4] == 1)
    };
    run.space(
        "active forks",
        "every subset of the 8 hardforks, the others either one second away or not scheduled, x 5 x 4 x 4 initial states of the system contracts x applied directly or computed and committed",
        radix.iter().product(),
        |i| format!("{:?}", dec(i)),
        |i| {
            let (h, o, t, k, direct) = dec(i);
            let w = world(o, t, k, 1)?;
            let x = pre_block(run, &w, &h, direct)?;
            Ok(Case { state: hash_dbg(&x.accts.keys().collect::<Vec<_>>()) ^ hash_dbg(&(h.active, o, t, k)), transitions: 1, traces: 1 })
        },
    );
    // (2) block headers
    let numbers = [0u64, 1, 2, 999, 8190, 8191, 8192, 8193, u32::MAX as u64];
    let times = [0u64, 1, 8190, 8191, 8192, 16_381, 16_382, 1_800_000_000];
    let roots = [None, Some(B256::ZERO), Some(r1), Some(B256::with_last_byte(1))];
    let parents = [B256::ZERO, r1];
    let actives: [u16; 9] = [0, 1, 0b11, 0b111, 0xf, 0x1f, 0x3f, 0x7f, 0xff];
    let caps = [256u64, 512, 1024, 1 << 20];
    let radix2 = [numbers.len() as u64, times.len() as u64, 4, 2, 9, 4, 2, caps.len() as u64];
    let dec2 = |i: u64| {
        let d = digits(i, &radix2);
        let h = Head { number: numbers[d[0]], time: times[d[1]], root: roots[d[2]], parent: parents[d[3]], active: actives[d[4]], cap: caps[d[7]], base: BASE };
        (h, d[5], d[6] == 1)
    };
    run.space(
        "headers",
        "block numbers and times around the ring buffers x beacon root absent, zero or set x parent hash x 9 hardfork levels x history contracts absent, empty, failing or filled x bucket capacities",
        radix2.iter().product(),
        |i| format!("{:?}", dec2(i)),
        |i| {
            let (h, eip, direct) = dec2(i);
            let w = world(Pre::Absent, Pre::Absent, Pre::Absent, eip)?;
            let x = pre_block(run, &w, &h, direct)?;
            Ok(Case { state: hash_dbg(&x), transitions: 1, traces: 1 })
        },
    );
    // (2b) the forks below: the history calls and, before the merge, the block reward
    let radix2 = [2u64, 2, PARIS.len() as u64, 4, 4, 9, 2, 4, 2];
    let dec2 = |i: u64| {
        let d = digits(i, &radix2);
        let h = Head { number: [0u64, 1, 1000, 8192][d[7]], time: 1_800_000_000, root: roots[d[3]], parent: r1, active: actives[d[5]], cap: 256, base: (d[0] == 0, d[1] == 0, d[2]) };
        (h, d[4], d[6] == 1, d[8])
    };
    run.space(
        "base forks",
        "Prague and Cancun active or not x 7 schedules of Paris, Constantinople and Byzantium x beacon root x beneficiary absent, without code, with code and storage, or with a delegation x 9 hardfork levels x block numbers",
        radix2.iter().product(),
        |i| format!("{:?}", dec2(i)),
        |i| {
            let (h, who, direct, eip) = dec2(i);
            let mut w = world(Pre::Absent, Pre::Absent, Pre::Absent, eip)?;
            match who {
                0 => drop(w.accts.remove(&COINBASE)),
                1 => {}
                2 => drop(w.set(COINBASE, 7, 3, &[0x60, 0x01, 0x00]).storage.insert(U256::from(2), U256::from(8))),
                _ => drop(w.set(COINBASE, 0, 1, &delegation(A))),
            }
            let x = pre_block(run, &w, &h, direct)?;
            Ok(Case { state: hash_dbg(&x), transitions: 1, traces: 1 })
        },
    );
    // (3) sequences of blocks through the upgrades
    let n = run.pick(3usize, 4);
    let mut radix3 = vec![5u64, 4, 4];
    radix3.extend(std::iter::repeat_n(9, n));
    let dec3 = |i: u64| {
        let d = digits(i, &radix3);
        (oracle_pre[d[0]], ts_pre[d[1]], kl_pre[d[2]], d[3..].to_vec())
    };
    run.space(
        "upgrades",
        &format!("all non-decreasing sequences of {n} hardfork levels x 80 initial states"),
        radix3.iter().product(),
        |i| format!("{:?}", dec3(i)),
        |i| {
            let (o, t, k, lv) = dec3(i);
            if lv.windows(2).any(|w| w[0] > w[1]) {
                return Ok(Case::default());
            }
            let mut w = world(o, t, k, 1)?;
            for (j, l) in lv.iter().enumerate() {
                let h = Head {
                    number: 1000 + j as u64,
                    time: 1_800_000_000 + j as u64,
                    root: Some(B256::with_last_byte(j as u8 + 1)),
                    parent: B256::repeat_byte(j as u8 + 1),
                    active: actives[*l],
                    cap: 256,
                    base: BASE,
                };
                w = pre_block(run, &w, &h, j % 2 == 0)?;
                // something is written to the oracle between the blocks
                if let Some(x) = w.accts.get_mut(&ORACLE) {
                    if !x.code.is_empty() {
                        x.storage.insert(U256::from(70 + j), U256::from(j + 1));
                    }
                }
            }
            Ok(Case { state: hash_dbg(&w), transitions: lv.len() as u64, traces: lv.len() as u64 })
        },
    );
}

// ------------------------------------------------------------------ C28: failures

#[derive(Clone, Debug, PartialEq)]
struct Ended {
    rejected: Vec<String>,
    receipts: String,
    totals: Totals,
    world: World,
}
/// A block in which the k-th read of the database fails once; the step that it interrupts is
/// submitted again.
fn faulty_block(spec: MegaSpecId, w0: &World, seq: &[&Btx], inspected: bool, inline: bool, fail: Option<u64>) -> Result<(Ended, u64, u64), Bad> {
    macro_rules! drive_faulty {
        ($ex:expr) => {{
            let mut ex = $ex;
            let mut failures = 0u64;
            let mut rejected = vec![];
            for round in 0..2 {
                match ex.apply_pre_execution_changes() {
                    Ok(()) => break,
                    Err(e) => {
                        ensure!(fail.is_some() && round == 0 && failures == 0, "pre-block phase: {e:?}");
                        ensure!(format!("{e:?}").contains("injected"), "pre-block phase: not the failure of the database: {e:?}");
                        failures += 1;
                    }
                }
            }
            for (i, tx) in seq.iter().enumerate() {
                let env = {
                    // nonces: the number of earlier transactions of the same sender
                    let mut w = w0.clone();
                    let m = seq[..i].iter().filter(|t| t.from == tx.from && !t.bad_nonce).count() as u64;
                    let a = w.accts.entry(tx.from).or_default();
                    a.nonce += m;
                    tx.envelope(&w)
                };
                let before = (totals(&ex.block_limiter), ex.receipts.len());
                match ex.execute_transaction(&env) {
                    Ok(_) => {}
                    Err(e) if !format!("{e:?}").contains("injected") => rejected.push(format!("{i} {e:?}")),
                    Err(e) => {
                        ensure!(fail.is_some() && failures == 0, "transaction {i}: {e:?}");
                        ensure!(
                            matches!(e, BlockExecutionError::Internal(_)) && format!("{e:?}").contains("injected"),
                            "transaction {i}: not the failure of the database: {e:?}"
                        );
                        failures += 1;
                        ensure_eq!((totals(&ex.block_limiter), ex.receipts.len()), before, "totals and receipts after a failed transaction");
                        let again = ex.execute_transaction(&env);
                        if let Err(e) = again {
                            rejected.push(format!("{i} {e:?}"));
                        }
                    }
                }
            }
            let totals = totals(&ex.block_limiter);
            let (evm, res) = ex.finish().map_err(|e| Bad { what: format!("finish {e:?}") })?;
            let (db, _) = evm.finish();
            let reads = db.database.reads;
            db.database.fail_at = None;
            let world = world_via_bundle(w0, db);
            Ok((Ended { rejected, receipts: format!("{:?}", res.receipts), totals, world }, reads, failures))
        }};
    }
    let mut envs = McEnvs::default();
    envs.salt = McSalt::uniform(512);
    let mut d = McDb::new(w0);
    d.fail_at = fail;
    d.inline_code = inline;
    let mut st = State::builder().with_database(d).with_bundle_update().build();
    let fac = MegaBlockExecutorFactory::new(
        forks_for(spec),
        MegaEvmFactory::new().with_external_env_factory(envs.clone()),
        OpAlloyReceiptBuilder::default(),
    );
    let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(spec);
    cfg.chain_id = 1;
    let limits = no_runtime(hist_limits());
    let env = EvmEnv::new(cfg, the_block(&limits));
    let ctx = MegaBlockExecutionCtx::new(B256::repeat_byte(9), Some(B256::ZERO), Bytes::new(), limits);
    if inspected {
        drive_faulty!(fac.create_executor_with_inspector(&mut st, ctx, env, NoOpInspector))
    } else {
        drive_faulty!(fac.create_executor(&mut st, ctx, env))
    }
}

pub fn faults(run: &Run) {
    let txs = menu(true);
    let m = txs.len() as u64;
    let specs = [MegaSpecId::EQUIVALENCE, MegaSpecId::MINI_REX, MegaSpecId::REX2, MegaSpecId::REX4];
    let radix = [m, run.pick(4, m), 4, 2, 2];
    let dec = |i: u64| {
        let d = digits(i, &radix);
        let second = [0usize, 12, 18, m as usize - 1];
        (specs[d[2]], [&txs[d[0]], &txs[if run.thorough() { d[1] } else { second[d[1]] }]], d[3] == 1, d[4] == 1)
    };
    run.space(
        "blocks",
        &format!("pre-block phase and two transactions out of {m} kinds x 4 specs x inspector x code inline or by hash x a failure at every database read, the interrupted step submitted again"),
        radix.iter().product(),
        |i| {
            let (s, q, x, y) = dec(i);
            format!("{s:?} {:?} inspected {x} inline {y}", q.iter().map(|t| &t.name).collect::<Vec<_>>())
        },
        |i| {
            let (spec, q, insp, inline) = dec(i);
            let mut w = block_world();
            w.set(HISTORY, 0, 1, &alloy_eips::eip2935::HISTORY_STORAGE_CODE);
            w.set(BEACON, 0, 1, &alloy_eips::eip4788::BEACON_ROOTS_CODE);
            let (clean, reads, _) = faulty_block(spec, &w, &q, insp, inline, None)?;
            for k in 0..reads {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| faulty_block(spec, &w, &q, insp, inline, Some(k))));
                let Ok(r) = r else { return bad(format!("failure at read {k}: panic")) };
                let (got, _, n) = r.map_err(|e| Bad { what: format!("failure at read {k}: {}", e.what) })?;
                ensure_eq!(n, 1, "failure at read {k}: errors reported");
                ensure_eq!(got, clean, "failure at read {k}: block");
            }
            Ok(Case { state: hash_dbg(&(clean.receipts, clean.totals)), transitions: reads + 1, traces: reads + 1 })
        },
    );
}
