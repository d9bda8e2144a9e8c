//! Properties about the execution of one transaction, decided by enumerating bounded programs.
use crate::{common::*, ensure_eq, prog::*, reft::*, runner::*};
use alloy_primitives::{Address, U256};
use mega_evm::{MegaEvm, MegaSpecId, MegaTransaction, MegaTransactionOutcome};
use revm::{
    context::{either::Either, result::ExecutionResult},
    context_interface::transaction::{
        AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization,
        SignedAuthorization,
    },
    state::EvmState,
};
use std::collections::{BTreeMap, BTreeSet};

pub fn id_addr() -> Address {
    Address::with_last_byte(4)
}

/// SLOAD whose result is observable: the value becomes a log topic
pub fn sload_log(k: u8) -> Op {
    Op::Raw("sload-log", vec![0x60, k, 0x54, 0x5f, 0x5f, 0xa1])
}
/// GAS whose result is observable: the value becomes log data
pub fn gas_log() -> Op {
    Op::Raw("gas-log", vec![0x5a, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xa0])
}

/// The general alphabet: storage, logs, calls of all kinds, creates, reverts.
pub fn general(sd: bool) -> Alphabet {
    let call = |kind, to, value, gas| Op::Call { kind, to, value, gas, body: None };
    let mut leaves = vec![
        Op::Sstore(1, 7),
        Op::Sstore(1, 0),
        Op::Sstore(5, 0),
        Op::Sstore(5, 55),
        sload_log(5),
        Op::Log(0, 0),
        Op::Log(2, 33),
        Op::Raw("keccak+mem", vec![0x61, 0x01, 0x00, 0x5f, 0x20, 0x50]),
        call(CK::Call, NONE, 0, G::All),
        call(CK::Call, NONE, 1, G::All),
        call(CK::Call, EOA, 1, G::All),
        call(CK::Call, EOA, 0, G::Lim(0)),
        call(CK::Call, EMPTY, 1, G::All),
        call(CK::Call, CODE_ONLY, 1, G::All),
        call(CK::CallCode, NONE, 1, G::All),
        call(CK::Static, id_addr(), 0, G::All),
        call(CK::Call, id_addr(), 1, G::Lim(5)),
        // more value than anybody has
        call(CK::Call, EOA, u64::MAX, G::All),
        // delegated accounts
        call(CK::Call, DELEG_NONE, 1, G::All),
        call(CK::Static, CYC1, 0, G::All),
    ];
    if sd {
        leaves.push(Op::SelfDestruct(EOA));
        leaves.push(Op::SelfDestruct(NONE));
    }
    Alphabet {
        leaves,
        calls: vec![
            call(CK::Call, B, 0, G::All),
            call(CK::Call, B, 1, G::All),
            call(CK::Call, A, 0, G::All),
            call(CK::CallCode, B, 1, G::All),
            call(CK::Delegate, B, 0, G::All),
            call(CK::Static, B, 0, G::All),
            call(CK::Call, B, 0, G::Lim(30_000)),
            call(CK::Call, DELEG, 0, G::All),
        ],
        creates: vec![
            Op::Create { two: false, value: 0, init: Body::new(vec![], End::Stop) },
            Op::Create { two: true, value: 3, init: Body::new(vec![], End::Stop) },
        ],
        call_ends: vec![End::Stop, End::Revert, End::Invalid],
        init_ends: vec![End::Return(3), End::Revert, End::ReturnEf(2), End::Stop],
        top_ends: vec![End::Stop, End::Revert, End::Invalid],
        max_depth: 3,
    }
}

/// Few operations, nested deeply: storage transitions across frames that succeed or fail.
pub fn storage_deep() -> Alphabet {
    let call = |kind, to, value| Op::Call { kind, to, value, gas: G::All, body: None };
    Alphabet {
        leaves: vec![
            Op::Sstore(1, 7),
            Op::Sstore(1, 0),
            Op::Sstore(5, 0),
            Op::Sstore(5, 55),
            Op::Sstore(5, 9),
            Op::Log(1, 3),
        ],
        calls: vec![call(CK::Call, A, 0), call(CK::Delegate, B, 0)],
        creates: vec![],
        call_ends: vec![End::Stop, End::Revert],
        init_ends: vec![],
        top_ends: vec![End::Stop],
        max_depth: 4,
    }
}
/// Few operations, nested deeply: value transfers and creations.
pub fn account_deep() -> Alphabet {
    let call = |kind, to, value| Op::Call { kind, to, value, gas: G::All, body: None };
    Alphabet {
        leaves: vec![Op::Sstore(1, 7), call(CK::Call, NONE, 1), call(CK::Call, EOA, 1)],
        calls: vec![call(CK::Call, B, 0), call(CK::Call, B, 1)],
        creates: vec![
            Op::Create { two: false, value: 1, init: Body::new(vec![], End::Stop) },
            Op::Create { two: true, value: 0, init: Body::new(vec![], End::Stop) },
        ],
        call_ends: vec![End::Stop, End::Revert],
        init_ends: vec![End::Return(3), End::RevertN(5)],
        top_ends: vec![End::Stop],
        max_depth: 4,
    }
}
const DEEP_SETUPS: [(MegaSpecId, u64); 3] =
    [(MegaSpecId::MINI_REX, MIXED), (MegaSpecId::REX1, 512), (MegaSpecId::REX4, MIXED)];
fn deep(run: &Run, dims: &[Dim]) {
    let n = run.pick(4, 5);
    programs(run, "deep storage programs", &storage_deep(), n, &DEEP_SETUPS, no_sd, dims);
    let n = run.pick(4, 5);
    programs(run, "deep account programs", &account_deep(), n, &DEEP_SETUPS, no_sd, dims);
}

/// Observable dimensions of one execution; every property looks at its own.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dim {
    /// result, logs, post state
    Func,
    Compute,
    Data,
    Kv,
    Growth,
    Gas,
    Buckets,
}

fn cmp_dims(
    w: &World,
    m: &MegaTransactionOutcome,
    rr: &ExecutionResult<op_revm::OpHaltReason>,
    rs: &EvmState,
    t: &RefTracker,
    floor: u64,
    auth_refund: i64,
    buckets: &BTreeSet<u32>,
    dims: &[Dim],
    tx: &MegaTransaction,
) -> Result<(), Bad> {
    let (is_create, caller) = (tx.base.kind.is_create(), tx.base.caller);
    let (om, or) = (obs(&m.result), obs(rr));
    let (d, k, g) = t.usage();
    for dim in dims {
        match dim {
            Dim::Func => {
                let norm = |r: &Res| match r {
                    Res::Halt(_) if t.uncertain => Res::Halt("?".into()),
                    Res::Halt(h) if t.oog && h.starts_with("OutOfGas") => Res::Halt("OutOfGas".into()),
                    Res::Halt(h) if matches!(h.as_str(), "InvalidFEOpcode" | "OpcodeNotFound" | "NotActivated") => {
                        Res::Halt("invalid instruction".into())
                    }
                    r => r.clone(),
                };
                ensure_eq!(norm(&om.res), norm(&or.res), "result");
                ensure_eq!(om.logs, or.logs, "logs");
                let (pm, mut pr) = (post_world(w, &m.state), post_world(w, rs));
                if t.initial_oog && is_create {
                    // the nonce is judged separately
                    for (a, x) in pr.accts.iter_mut() {
                        if *a == caller {
                            x.nonce = pm.nonce(caller);
                        }
                    }
                }
                ensure_eq!(pm, pr, "post state");
            }
            // how much an instruction that runs out of gas has charged is not specified
            Dim::Compute if t.oog || t.uncertain => {}
            Dim::Compute => ensure_eq!(m.compute_gas_used, t.compute, "compute gas"),
            Dim::Data => ensure_eq!(m.data_size, d, "data size"),
            Dim::Kv => ensure_eq!(m.kv_updates, k, "KV updates"),
            Dim::Growth => ensure_eq!(m.state_growth_used, g, "state growth"),
            Dim::Gas => ensure_eq!(om.gas_used, t.gas_used(floor, auth_refund), "gas used"),
            Dim::Buckets => ensure_eq!(*buckets, t.buckets, "buckets"),
        }
    }
    Ok(())
}

fn relevant(hit: &str, dims: &[Dim]) -> bool {
    match hit {
        "prewarmed_address_charged_cold" => {
            dims.contains(&Dim::Compute) || dims.contains(&Dim::Gas)
        }
        "caller_counted_per_subcall" => dims.contains(&Dim::Data) || dims.contains(&Dim::Kv),
        _ => true,
    }
}

/// Runs one transaction on the implementation (no limit binding) and on the reference and compares
/// the chosen dimensions.
pub fn compare(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction, dims: &[Dim]) -> CaseResult {
    let db = McDb::new(w);
    let r = ref_run(&db, s, tx, IMPL);
    // EIP-7623: the base floor must be covered as well
    let floor0 = 21_000 + 10 * calldata_tokens(&tx.base.data);
    let mut evm = MegaEvm::new(mega_ctx(db.clone(), s));
    let m = evm.execute_transaction(tx.clone());
    let buckets: BTreeSet<u32> = evm.get_accessed_bucket_ids().into_iter().collect();
    let (rr, rs) = match (&r.result, &m) {
        (Ok(x), _) => x,
        (Err(_), Err(_)) => {
            return Ok(Case { state: 1, transitions: 1, traces: 1 });
        }
        (Err(e), Ok(m)) => {
            return bad(format!("accepted ({:?}) but the reference rejects: {e}", m.result))
        }
    };
    let m = match m {
        Ok(m) => m,
        Err(e) => {
            if (r.t.rejected || tx.base.gas_limit < floor0) && is_gas_rejection(&format!("{e:?}")) {
                return Ok(Case { state: 2, transitions: 1, traces: 1 });
            }
            return bad(format!("rejected: {e:?}"));
        }
    };
    if r.t.rejected || tx.base.gas_limit < floor0 {
        return bad(format!("accepted ({:?}) with less gas than the intrinsic gas", m.result));
    }
    if r.t.diverged {
        return Ok(Case::default());
    }
    let floor = floor_gas(rank(s.spec), tx);
    let ar = auth_refund(w, s, tx);
    let c = Case {
        state: hash_dbg(&(obs(&m.result), m.compute_gas_used, m.data_size, m.kv_updates)),
        transitions: r.t.steps,
        traces: 1,
    };
    if let Err(e) = cmp_dims(w, &m, rr, rs, &r.t, floor, ar, &buckets, dims, tx) {
        if r.t.hit.is_empty() {
            return Err(e);
        }
        // some listed deviation is at play: without it the documented numbers must hold
        for q in QUIRK_SETS {
            let rd = ref_run(&db, s, tx, q);
            if let Ok((rr, rs)) = &rd.result {
                if cmp_dims(w, &m, rr, rs, &rd.t, floor, ar, &buckets, dims, tx).is_ok() {
                    for h in &rd.t.hit {
                        if relevant(h, dims) {
                            run.known(h, format!("{:?} {tx_to:?}", s.spec, tx_to = tx.base.kind))?;
                        }
                    }
                    return Ok(c);
                }
            }
        }
        return Err(e);
    }
    for h in &r.t.hit {
        if relevant(h, dims) {
            run.known(h, format!("first seen with {:?}", s.spec))?;
        }
    }
    if dims.contains(&Dim::Func) && r.t.initial_oog && tx.base.kind.is_create() {
        // an included transaction always advances its sender's nonce
        if post_world(w, &m.state).nonce(tx.base.caller) != w.nonce(tx.base.caller) + 1 {
            run.known("create_tx_stopped_early_keeps_nonce", format!("first seen with {:?}", s.spec))?;
        }
    }
    Ok(c)
}

fn is_gas_rejection(e: &str) -> bool {
    e.contains("CallGasCostMoreThanGasLimit") || e.contains("GasFloorMoreThanGasLimit")
}

/// Enumerates every program of the alphabet with at most `n` nodes under every listed setup.
pub fn programs(
    run: &Run,
    name: &str,
    al: &Alphabet,
    n: usize,
    setups: &[(MegaSpecId, u64)],
    sd: impl Fn(MegaSpecId) -> bool + Sync,
    dims: &[Dim],
) {
    let k = setups.len() as u64;
    let total = al.total(n) * k;
    let dec = |i: u64| (al.at(n, i / k), setups[(i % k) as usize]);
    run.space(
        name,
        &format!("all program trees with <= {n} nodes over {} leaves, {} calls x {} ends, {} creates x {} ends, {} top ends; {} (spec, capacity) pairs",
            al.leaves.len(), al.calls.len(), al.call_ends.len(), al.creates.len(), al.init_ends.len(), al.top_ends.len(), k),
        total,
        |i| format!("{:?}", dec(i)),
        |i| {
            let (p, (spec, cap)) = dec(i);
            let w = prog_world(&p, sd(spec));
            let s = Setup::new(spec).unlimited().salt(cap);
            compare(run, &w, &s, &tx_call(CALLER, A, vec![], 0), dims)
        },
    );
}

pub const SETUPS: [(MegaSpecId, u64); 6] = [
    (MegaSpecId::MINI_REX, MIXED),
    (MegaSpecId::REX, MIXED),
    (MegaSpecId::REX1, 256),
    (MegaSpecId::REX2, 512),
    (MegaSpecId::REX3, MIXED),
    (MegaSpecId::REX4, 1024),
];

fn no_sd(_: MegaSpecId) -> bool {
    false
}

pub fn c02(run: &Run) {
    programs(run, "programs", &general(false), run.pick(2, 3), &SETUPS, no_sd, &[Dim::Compute]);
    deep(run, &[Dim::Compute]);
    txs(run, &[Dim::Compute]);
    sizes(run, &[Dim::Compute]);
    extreme(run, &[Dim::Compute]);
    opcodes(run, &[Dim::Compute]);
}
pub fn c04(run: &Run) {
    programs(run, "programs", &general(false), run.pick(2, 3), &SETUPS, no_sd, &[Dim::Data]);
    deep(run, &[Dim::Data]);
    txs(run, &[Dim::Data]);
    sizes(run, &[Dim::Data]);
    extreme(run, &[Dim::Data]);
    std_sweep(run, &[Dim::Data]);
}
pub fn c05(run: &Run) {
    programs(run, "programs", &general(false), run.pick(2, 3), &SETUPS, no_sd, &[Dim::Kv]);
    deep(run, &[Dim::Kv]);
    txs(run, &[Dim::Kv]);
    sizes(run, &[Dim::Kv]);
    extreme(run, &[Dim::Kv]);
    std_sweep(run, &[Dim::Kv]);
}
pub fn c06(run: &Run) {
    programs(run, "programs", &general(false), run.pick(2, 3), &SETUPS, no_sd, &[Dim::Growth]);
    deep(run, &[Dim::Growth]);
    txs(run, &[Dim::Growth]);
    sizes(run, &[Dim::Growth]);
    extreme(run, &[Dim::Growth]);
    std_sweep(run, &[Dim::Growth]);
}
pub fn c08(run: &Run) {
    programs(run, "programs", &general(false), run.pick(2, 3), &SETUPS, no_sd, &[Dim::Gas]);
    deep(run, &[Dim::Gas]);
    txs(run, &[Dim::Gas]);
    sizes(run, &[Dim::Gas]);
    extreme(run, &[Dim::Gas]);
    std_sweep(run, &[Dim::Gas]);
}
pub fn c30(run: &Run) {
    programs(run, "programs", &general(false), run.pick(2, 3), &SETUPS, no_sd, &[Dim::Func]);
    deep(run, &[Dim::Func]);
    txs(run, &[Dim::Func]);
    sizes(run, &[Dim::Func]);
    extreme(run, &[Dim::Func]);
    std_sweep(run, &[Dim::Func]);
    opcodes(run, &[Dim::Func]);
}

/// Gas limits at which the outcome can change: around every accounting event of the run with
/// ample gas, and the same scaled for frames that only get 98/100 or 63/64 of their parent's gas.
pub fn gas_thresholds(t: &RefTracker, full: u64) -> Vec<u64> {
    let mut v = BTreeSet::new();
    let base = t.op_intrinsic;
    for g in [base.saturating_sub(1), base, full, full + 1, full.saturating_sub(1)] {
        v.insert(g);
    }
    for e in &t.evs {
        v.insert(e.spent - 1);
        v.insert(e.spent);
        let over = e.spent.saturating_sub(base);
        for (num, den) in [(100, 98), (64, 63), (10_000, 9_604)] {
            let g = base + (over as u128 * num / den) as u64;
            v.insert(g);
            v.insert(g + 2);
        }
    }
    v.into_iter().collect()
}

/// Every program x every interesting gas limit.
pub fn gas_sweep(run: &Run, al: &Alphabet, n: usize, setups: &[(MegaSpecId, u64)], dims: &[Dim]) {
    let k = setups.len() as u64;
    let dec = |i: u64| (al.at(n, i / k), setups[(i % k) as usize]);
    run.space(
        "programs x gas limits",
        &format!("all program trees with <= {n} nodes x gas limits around every accounting event (and scaled by the forwarding fractions); {k} (spec, capacity) pairs"),
        al.total(n) * k,
        |i| format!("{:?}", dec(i)),
        |i| {
            let (p, (spec, cap)) = dec(i);
            let w = prog_world(&p, false);
            let s = Setup::new(spec).unlimited().salt(cap);
            let tx = tx_call(CALLER, A, vec![], 0);
            let r = ref_run(&McDb::new(&w), &s, &tx, IMPL);
            let full = tx.base.gas_limit - r.t.final_gas;
            let mut c = Case::default();
            for g in gas_thresholds(&r.t, full) {
                let x = compare(run, &w, &s, &with_gas(tx.clone(), g), dims)
                    .map_err(|b| Bad { what: format!("gas limit {g}: {}", b.what) })?;
                c.state = c.state.wrapping_mul(31).wrapping_add(x.state);
                c.transitions += x.transitions;
                c.traces += x.traces;
            }
            Ok(c)
        },
    );
}
pub fn shape_gas_sweep(run: &Run, dims: &[Dim]) {
    let shapes = tx_shapes();
    let k = SETUPS.len() as u64;
    run.space(
        "transaction shapes x gas limits",
        "every transaction shape x gas limits around every accounting event, all specs",
        shapes.len() as u64 * k,
        |i| format!("{} {:?}", shapes[(i / k) as usize].desc, SETUPS[(i % k) as usize]),
        |i| {
            let sh = &shapes[(i / k) as usize];
            if !sh.tx.deposit.source_hash.is_zero() {
                return Ok(Case::default());
            }
            let (spec, cap) = SETUPS[(i % k) as usize];
            let s = Setup::new(spec).unlimited().salt(cap);
            let r = ref_run(&McDb::new(&sh.world), &s, &sh.tx, IMPL);
            let full = sh.tx.base.gas_limit - r.t.final_gas;
            let mut c = Case::default();
            let mut ths = gas_thresholds(&r.t, full);
            ths.extend([1, 2, 40].map(|x| x + r.t.op_intrinsic + 40 * calldata_tokens(&sh.tx.base.data)));
            for g in ths {
                let x = compare(run, &sh.world, &s, &with_gas(sh.tx.clone(), g), dims)
                    .map_err(|b| Bad { what: format!("gas limit {g}: {}", b.what) })?;
                c.state = c.state.wrapping_mul(31).wrapping_add(x.state);
                c.transitions += x.transitions;
                c.traces += x.traces;
            }
            Ok(c)
        },
    );
}

fn std_sweep(run: &Run, dims: &[Dim]) {
    let al = super::limits::limit_alphabet();
    let q: &[(MegaSpecId, u64)] =
        &[(MegaSpecId::MINI_REX, 256), (MegaSpecId::REX, 512), (MegaSpecId::REX3, 768)];
    gas_sweep(run, &al, run.pick(2, 2), if run.thorough() { &SETUPS } else { q }, dims);
    shape_gas_sweep(run, dims);
}

// ------------------------------------------------------------------ transaction shapes

pub struct TxShape {
    pub world: World,
    pub tx: MegaTransaction,
    pub desc: String,
}


/// Every combination of kind x value x calldata x access list x type/authorisations.
pub fn tx_shapes() -> Vec<TxShape> {
    let mut out = vec![];
    let inits: Vec<(&str, Vec<u8>)> = vec![
        ("empty", vec![]),
        ("ret0", Image::compile_init(&Body::new(vec![], End::Return(0)), false)),
        ("ret40", Image::compile_init(&Body::new(vec![Op::Sstore(1, 1)], End::Return(40)), false)),
        ("revert", Image::compile_init(&Body::new(vec![Op::Sstore(1, 1)], End::RevertN(9)), false)),
        ("invalid", Image::compile_init(&Body::new(vec![], End::Invalid), false)),
        ("ef", Image::compile_init(&Body::new(vec![], End::ReturnEf(3)), false)),
    ];
    let body = Body::new(vec![Op::Sstore(1, 7), Op::Log(1, 5), Op::Sload(5)], End::Stop);
    let rev = Body::new(vec![Op::Sstore(1, 7), Op::Log(1, 5)], End::Revert);
    let mut targets: Vec<(String, Option<Address>, Vec<u8>, World)> = vec![];
    let w1 = prog_world(&body, false);
    let w2 = prog_world(&rev, false);
    for (n, a) in [
        ("contract", A),
        ("eoa", EOA),
        ("missing", NONE),
        ("empty", EMPTY),
        ("code only", CODE_ONLY),
        ("identity", id_addr()),
        ("coinbase", COINBASE),
        ("self", CALLER),
        ("modexp", Address::with_last_byte(5)),
    ] {
        targets.push((n.to_string(), Some(a), vec![], w1.clone()));
    }
    targets.push(("reverting".into(), Some(A), vec![], w2));
    for (n, c) in &inits {
        targets.push((format!("create-{n}"), None, c.clone(), w1.clone()));
    }
    let datas: Vec<Vec<u8>> = vec![vec![], vec![0; 3], {
        let mut v = vec![0u8; 5];
        v.extend_from_slice(&[9; 200]);
        v
    }];
    use alloy_primitives::B256;
    let als: Vec<Vec<AccessListItem>> = vec![
        vec![],
        vec![AccessListItem {
            address: A,
            storage_keys: vec![B256::with_last_byte(1), B256::with_last_byte(5)],
        }],
        vec![
            AccessListItem { address: NONE, storage_keys: vec![] },
            AccessListItem { address: COINBASE, storage_keys: vec![] },
            AccessListItem { address: id_addr(), storage_keys: vec![] },
            AccessListItem { address: B, storage_keys: vec![B256::ZERO; 3] },
        ],
    ];
    for (tn, to, code, w) in &targets {
        for value in [0u128, 1] {
            for data in &datas {
                if to.is_none() && !data.is_empty() {
                    continue;
                }
                for (ai, al) in als.iter().enumerate() {
                    for ty in [0u8, 1, 2, 4, 0x7e] {
                        if (ty == 0 || ty == 0x7e) && ai > 0 || (ty == 4 && to.is_none()) {
                            continue;
                        }
                        let variants = if ty == 4 { 5 } else { 1 };
                        for av in 0..variants {
                            let mut t = match to {
                                Some(a) => tx_call(CALLER, *a, data.clone(), value),
                                None => tx_create(CALLER, code.clone(), value),
                            };
                            t.base.tx_type = ty;
                            t.base.access_list = al.clone().into();
                            if ty >= 2 {
                                t.base.gas_priority_fee = Some(0);
                            }
                            if ty == 4 {
                                t.base.authorization_list = auths(av);
                            }
                            if ty == 0x7e {
                                t.deposit.source_hash = B256::repeat_byte(3);
                                t.deposit.mint = Some(5);
                                t.base.gas_limit = 1 << 40;
                                t.enveloped_tx = None;
                            }
                            out.push(TxShape {
                                world: w.clone(),
                                tx: t,
                                desc: format!(
                                    "{tn} value={value} data={} access_list={ai} type={ty} auth={av}",
                                    data.len()
                                ),
                            });
                        }
                    }
                }
            }
        }
    }
    out
}

/// Authorisation lists: valid, wrong nonce, wrong chain, unrecoverable, two for one authority.
pub fn auths(v: usize) -> Vec<Either<SignedAuthorization, RecoveredAuthorization>> {
    use alloy_primitives::U256;
    let mk = |who: Option<Address>, nonce: u64, chain: u64, to: Address| {
        Either::Right(RecoveredAuthorization::new_unchecked(
            Authorization { chain_id: U256::from(chain), address: to, nonce },
            match who {
                Some(a) => RecoveredAuthority::Valid(a),
                None => RecoveredAuthority::Invalid,
            },
        ))
    };
    match v {
        0 => vec![mk(Some(EOA), 0, 0, B)],
        1 => vec![mk(Some(EOA), 5, 0, B)],
        2 => vec![mk(None, 0, 0, B), mk(Some(NONE2), 0, 0, B)],
        3 => vec![mk(Some(EOA), 0, 77, B)],
        _ => vec![mk(Some(EOA), 0, 0, B), mk(Some(EOA), 1, 0, Address::ZERO)],
    }
}

fn txs(run: &Run, dims: &[Dim]) {
    let shapes = tx_shapes();
    let k = SETUPS.len() as u64;
    run.space(
        "transaction shapes",
        "every combination of target x value x calldata x access list x type x authorisation list, all specs",
        shapes.len() as u64 * k,
        |i| format!("{} {:?}", shapes[(i / k) as usize].desc, SETUPS[(i % k) as usize]),
        |i| {
            let sh = &shapes[(i / k) as usize];
            let (spec, cap) = SETUPS[(i % k) as usize];
            let s = Setup::new(spec).unlimited().salt(cap);
            compare(run, &sh.world, &s, &sh.tx, dims)
        },
    );
}

/// EIP-7623 floor with the MegaETH surcharge.
pub fn floor_gas(spec: u8, tx: &MegaTransaction) -> u64 {
    let t = calldata_tokens(&tx.base.data);
    21_000 + (if spec >= R_MINI { 110 } else { 10 }) * t
}

/// Refund for authorisations of existing accounts (EIP-7702): 12,500 each.
pub fn auth_refund(w: &World, s: &Setup, tx: &MegaTransaction) -> i64 {
    use revm::context_interface::transaction::AuthorizationTr;
    let mut nonces: BTreeMap<Address, u64> = BTreeMap::new();
    let mut r = 0;
    for a in &tx.base.authorization_list {
        let Some(who) = a.authority() else { continue };
        let cid = a.chain_id();
        if !cid.is_zero() && cid != U256::from(s.chain_id) {
            continue;
        }
        let mut cur = *nonces.entry(who).or_insert_with(|| w.nonce(who));
        if who == tx.base.caller {
            cur += 1;
        }
        if cur != a.nonce() {
            continue;
        }
        let exists = w.accts.contains_key(&who) || nonces.get(&who) != Some(&w.nonce(who));
        nonces.insert(who, cur + 1);
        if exists {
            r += 12_500;
        }
    }
    r
}

// ------------------------------------------------------------------ every opcode

/// Each opcode byte once, with operands that make it succeed (or fail) in a few ways.
pub fn opcode_programs() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for op in 0u16..=255 {
        let op = op as u8;
        // calls, creates and terminators have their own alphabets
        if matches!(op, 0xf0..=0xfa) && op != 0xf3 && op != 0xfd {
            continue;
        }
        for (name, operands) in [("none", vec![]), ("zeros", vec![0u64; 17]), ("ones", vec![1; 17]), ("mixed", vec![3, 64, 33, 2, 5, 1, 7, 9, 2, 3, 4, 5, 6, 7, 8, 9, 1])] {
            let mut a = Asm::default();
            // some memory
            a = a.push(0x1234).push(0).op(0x52);
            for o in &operands {
                a = a.push(*o);
            }
            a = a.op(op);
            if (0x60..=0x7f).contains(&op) {
                a = a.ops(&vec![0x01; (op - 0x5f) as usize]);
            }
            // reach the end with a STOP, JUMPDEST-padded
            a = a.op(0x5b).op(0x00);
            v.push((format!("{op:#04x}/{name}"), a.build()));
        }
    }
    // jumps
    for (n, c) in [
        ("jump", Asm::default().push(4).op(0x56).op(0xfe).op(0x5b).op(0x00)),
        ("jumpi-taken", Asm::default().push(1).push(6).op(0x57).op(0xfe).op(0x5b).op(0x00)),
        ("jumpi-not", Asm::default().push(0).push(6).op(0x57).op(0x00).op(0x5b).op(0xfe)),
        ("bad-jump", Asm::default().push(1).op(0x56)),
    ] {
        v.push((n.to_string(), c.build()));
    }
    // CREATE2 with init code beyond the memory, zero length at odd offsets, oversized
    for (off, len, pre) in
        [(0u64, 32u64, false), (0, 0, false), (1000, 32, true), (1 << 40, 0, true), (1 << 40, 1, true), (0, 548_865, false), (0, 548_864, false)]
    {
        for op in [0xf0u8, 0xf5] {
            let mut a = Asm::default();
            if pre {
                a = a.push(1).push(0).op(0x52);
            }
            let c = a.push(9).push(len).push(off).push(0).op(op).op(0x00).build();
            v.push((format!("create-{op:#x}-{off}-{len}-{pre}"), c));
        }
    }
    // init code that starts, ends or lies anywhere with respect to the end of the memory
    for words in 0..3u64 {
        for off in [0u64, 1, 16, 31, 32, 33, 63, 64, 1_000] {
            for len in [1u64, 16, 32, 33, 64, 100] {
                for op in [0xf0u8, 0xf5] {
                    let mut a = Asm::default();
                    for w in 0..words {
                        a = a.push_u256(U256::from_be_bytes([0x5b; 32])).push(32 * w).op(0x52);
                    }
                    let c = a.push(9).push(len).push(off).push(0).op(op).push(1).op(0x55).op(0x00).build();
                    v.push((format!("create-{op:#x}-{words} words-{off}-{len}"), c));
                }
            }
        }
    }
    for (off, len) in [(U256::MAX, U256::ZERO), (U256::from(u64::MAX) + U256::from(1), U256::ZERO), (U256::MAX, U256::from(1)), (U256::ZERO, U256::MAX)] {
        for op in [0xf0u8, 0xf5] {
            let c = Asm::default().push(9).push_u256(len).push_u256(off).push(0).op(op).op(0x00).build();
            v.push((format!("create-{op:#x}-{off:#x}-{len:#x}"), c));
        }
    }
    v
}

/// One parameterised operation each, for every size in a list.
const SIZES: [usize; 36] = [
    0, 1, 2, 3, 30, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257, 1_000, 1_023, 1_024, 1_025, 4_095, 4_096,
    4_097, 8_191, 8_192, 24_576, 24_577, 32_768, 65_535, 65_536, 100_000, 300_000,
];
const FAMILIES: [&str; 16] = [
    "log0", "log2", "log4", "create", "create2", "create transaction", "init code", "zero calldata", "calldata", "access list addresses",
    "access list keys", "authorizations", "call input", "return data", "keccak", "stores",
];
fn size_case(family: usize, n: usize) -> Option<(World, MegaTransaction)> {
    let mut w = prog_world(&Body::new(vec![], End::Stop), false);
    let z = n as u64;
    let mut tx = tx_call(CALLER, A, vec![], 0);
    let many = n <= 257;
    let deployer = |n: u64| Asm::default().push(n).push(0).op(0xf3).build();
    let code = match FAMILIES[family] {
        "log0" => Asm::default().push(z).push(0).op(0xa0),
        "log2" => Asm::default().push(1).push(2).push(z).push(7).op(0xa2),
        "log4" => Asm::default().push(1).push(2).push(3).push(4).push(z).push(0).op(0xa4),
        f @ ("create" | "create2") => {
            let init = deployer(z);
            let a = Asm::default().mem(0, &init);
            let a = if f == "create2" { a.push(5) } else { a };
            a.push(init.len() as u64).push(0).push(0).op(if f == "create2" { 0xf5 } else { 0xf0 })
        }
        "create transaction" => {
            tx = tx_create(CALLER, deployer(z), 1);
            Asm::default()
        }
        "init code" => {
            let mut c = deployer(3);
            c.resize(c.len() + n, 0x5b);
            tx = tx_create(CALLER, c, 0);
            Asm::default()
        }
        "zero calldata" => {
            tx = tx_call(CALLER, A, vec![0; n], 0);
            Asm::default()
        }
        "calldata" => {
            tx = tx_call(CALLER, A, vec![0xee; n], 0);
            Asm::default()
        }
        "access list addresses" if many => {
            tx.base.tx_type = 1;
            let l = (0..n).map(|i| AccessListItem { address: Address::left_padding_from(&(i as u32 + 5).to_be_bytes()), storage_keys: vec![] });
            tx.base.access_list = l.collect::<Vec<_>>().into();
            Asm::default().sstore(1, 1)
        }
        "access list keys" if many => {
            use alloy_primitives::B256;
            tx.base.tx_type = 2;
            tx.base.gas_priority_fee = Some(0);
            let keys = (0..n).map(|i| B256::from(U256::from(i / 2))).collect();
            tx.base.access_list = vec![AccessListItem { address: A, storage_keys: keys }].into();
            Asm::default().sstore(1, 1)
        }
        "authorizations" if many && n > 0 => {
            tx.base.tx_type = 4;
            tx.base.gas_priority_fee = Some(0);
            tx.base.authorization_list = (0..n)
                .map(|i| {
                    Either::Right(RecoveredAuthorization::new_unchecked(
                        Authorization { chain_id: U256::ZERO, address: B, nonce: (i / 3) as u64 },
                        RecoveredAuthority::Valid(Address::left_padding_from(&[7, (i % 3) as u8])),
                    ))
                })
                .collect();
            Asm::default().sstore(1, 1)
        }
        "call input" => Asm::default().push(0).push(0).push(z).push(0).push(0).push_addr(id_addr()).push(u64::MAX).op(0xf1),
        "return data" => {
            let callee = Asm::default().push(z).push(0).op(0xf3).build();
            w.set(C, 0, 1, &callee);
            Asm::default().push(z).push(9).push(0).push(0).push(0).push_addr(C).push(u64::MAX).op(0xf1)
        }
        "keccak" => Asm::default().push(z).push(0).op(0x20),
        "stores" if many => {
            let mut a = Asm::default();
            for i in 0..z {
                a = a.sstore(i, i % 3);
            }
            a
        }
        _ => return None,
    };
    w.set(A, 1000, 1, &code.op(0).build()).storage.insert(U256::from(5), U256::from(55));
    Some((w, tx))
}
pub fn sizes(run: &Run, dims: &[Dim]) {
    let k = SETUPS.len() as u64;
    let f = FAMILIES.len() as u64;
    run.space(
        "sizes",
        "16 operations and transaction parts x 36 sizes from 0 to 300,000 bytes (or 0 to 257 items), all specs",
        f * SIZES.len() as u64 * k,
        |i| format!("{} of {} {:?}", FAMILIES[(i / k % f) as usize], SIZES[(i / k / f) as usize], SETUPS[(i % k) as usize]),
        |i| {
            let (spec, cap) = SETUPS[(i % k) as usize];
            let Some((w, tx)) = size_case((i / k % f) as usize, SIZES[(i / k / f) as usize]) else { return Ok(Case::default()) };
            let s = Setup::new(spec).unlimited().salt(cap);
            compare(run, &w, &s, &tx, dims)
        },
    );
}

fn opcodes(run: &Run, dims: &[Dim]) {
    let ops = opcode_programs();
    let k = SETUPS.len() as u64;
    run.space(
        "single opcodes",
        "every opcode byte x 4 operand vectors, jumps, CREATE/CREATE2 x memory of 0 to 2 words x 9 offsets x 6 lengths, all specs",
        ops.len() as u64 * k,
        |i| format!("{} {:?}", ops[(i / k) as usize].0, SETUPS[(i % k) as usize]),
        |i| {
            let (spec, cap) = SETUPS[(i % k) as usize];
            let (name, code) = &ops[(i / k) as usize];
            if name.starts_with("0xff") && rank(spec) < R_REX2 {
                return Ok(Case::default());
            }
            let mut w = base_world();
            w.set(A, 1000, 1, code).storage.insert(U256::from(5), U256::from(55));
            let s = Setup::new(spec).unlimited().salt(cap);
            compare(run, &w, &s, &tx_call(CALLER, A, vec![1, 2, 3], 0), dims)
        },
    );
}

// ------------------------------------------------------------------ extremes

/// One transaction far from the small programs: deep, repeated, or with large numbers.
pub struct Extreme {
    pub desc: String,
    pub world: World,
    pub tx: MegaTransaction,
    pub cap: Option<u64>,
}
pub const BIG: [U256; 12] = [
    U256::ZERO,
    U256::from_limbs([1, 0, 0, 0]),
    U256::from_limbs([255, 0, 0, 0]),
    U256::from_limbs([256, 0, 0, 0]),
    U256::from_limbs([u32::MAX as u64, 0, 0, 0]),
    U256::from_limbs([1 << 32, 0, 0, 0]),
    U256::from_limbs([u64::MAX, 0, 0, 0]),
    U256::from_limbs([0, 1, 0, 0]),
    U256::from_limbs([u64::MAX, u64::MAX, 0, 0]),
    U256::from_limbs([0, 0, 1, 0]),
    U256::from_limbs([0, 0, 0, 1 << 63]),
    U256::MAX,
];
fn leaf_code(name: &str, a: Asm) -> Asm {
    let small_init = Asm::default().push(3).push(0).op(0xf3).build();
    match name {
        "store" => a.sstore(77, 7),
        "reset" => a.sstore(5, 0),
        "log" => a.push(1).push(40).push(0).op(0xa1),
        "create" => {
            let n = small_init.len() as u64;
            a.mem(0x40, &small_init).push(n).push(0x40).push(0).op(0xf0).op(0x50)
        }
        "pay" => a.push(0).push(0).push(0).push(0).push(1).push_addr(NONE).push(100_000).op(0xf1).op(0x50),
        "keccak" => a.push(100).push(0).op(0x20).op(0x50),
        "timestamp" => a.op(0x42).op(0x50),
        "basefee" => a.op(0x48).op(0x50),
        "beneficiary" => a.push_addr(COINBASE).op(0x31).op(0x50),
        "oracle" => a.push(0).push(0).push(0).push(0).push_addr(ORACLE).push(u64::MAX).op(0xfa).op(0x50),
        "delegate to oracle" => a.push(0).push(0).push(0).push(0).push_addr(ORACLE).push(u64::MAX).op(0xf4).op(0x50),
        "hint" => {
            let h = super::oracle::hint_input(7, b"abc");
            let n = h.len() as u64;
            a.mem(0x40, &h).push(0).push(0).push(n).push(0x40).push(0).push_addr(ORACLE).push(u64::MAX).op(0xf1).op(0x50)
        }
        _ => a,
    }
}
/// A contract that calls itself (or its partner) as often as its calldata says and acts at the
/// bottom; the call with `rev` left to go fails in the given way.
pub fn chain_code(kind: CK, to: Address, value: u64, leaf: &str, each: &str, rev: Option<(u64, u8)>) -> Vec<u8> {
    let fail = |a: Asm, op: u8| match op {
        0xfd => a.push(0).push(0).op(0xfd),
        o => a.op(o),
    };
    let mut lo = leaf_code(leaf, Asm::default());
    if let Some((0, op)) = rev {
        lo = fail(lo, op);
    }
    let lo = lo.op(0x00).build();
    // PUSH0 CALLDATALOAD DUP1 PUSH2 rec JUMPI <leaf> rec:
    let rec = 7 + lo.len();
    let mut a = Asm::default().op(0x5f).op(0x35).op(0x80).op(0x61).ops(&(rec as u16).to_be_bytes()).op(0x57);
    a = a.ops(&lo).op(0x5b);
    // d -> d - 1, kept on the stack and written to memory
    a = a.push(1).op(0x90).op(0x03).op(0x80).op(0x5f).op(0x52);
    a = leaf_code(each, a).op(0x80).op(0x5f).op(0x52);
    a = a.push(0).push(0).push(32).push(0);
    if matches!(kind, CK::Call | CK::CallCode) {
        a = a.push(value);
    }
    a = a.push_addr(to).push(u64::MAX).op(match kind {
        CK::Call => 0xf1,
        CK::CallCode => 0xf2,
        CK::Delegate => 0xf4,
        CK::Static => 0xfa,
    });
    a = a.op(0x50);
    if let Some((r, op)) = rev {
        if r > 0 {
            // if d - 1 == r - 1 fail
            a = a.push(r - 1).op(0x14).op(0x15);
            let here = a.code.len();
            let f = fail(Asm::default(), op).build();
            a = a.op(0x61).ops(&((here + 4 + f.len()) as u16).to_be_bytes()).op(0x57).ops(&f).op(0x5b);
        }
    }
    a.op(0x00).build()
}
/// repeats `body` (which sees the counter, counting down to 1, on the stack and leaves it there)
pub fn repeat(n: u64, body: Asm) -> Vec<u8> {
    let a = Asm::default().push(n);
    let start = a.code.len() as u16;
    // JUMPDEST DUP1 ISZERO PUSH2 end JUMPI body PUSH1 1 SWAP1 SUB PUSH2 start JUMP end:
    let end = start + 7 + body.code.len() as u16 + 8;
    a.op(0x5b).op(0x80).op(0x15).op(0x61).ops(&end.to_be_bytes()).op(0x57).ops(&body.code).push(1).op(0x90).op(0x03).op(0x61).ops(&start.to_be_bytes()).op(0x56).op(0x5b).op(0x00).build()
}
pub fn extremes(thorough: bool) -> Vec<Extreme> {
    let mut v: Vec<Extreme> = vec![];
    let world = |code: &[u8]| {
        let mut w = base_world();
        for a in [A, B] {
            w.set(a, 1000 * ETHER, 1, code).storage.insert(U256::from(5), U256::from(55));
        }
        w
    };
    let word = |d: u64| U256::from(d).to_be_bytes::<32>().to_vec();
    // --- depth
    let depths: &[u64] = if thorough {
        &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 30, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1022, 1023, 1024, 1025]
    } else {
        &[1, 2, 3, 4, 5, 6, 8, 11, 16, 17, 33, 65, 129, 300, 1023, 1024]
    };
    for &d in depths {
        let kinds = [(CK::Call, A, 0), (CK::Call, B, 1), (CK::Delegate, B, 0), (CK::Static, B, 0), (CK::CallCode, B, 1)];
        let revs = [None, Some((0, 0xfdu8)), Some((d, 0xfd)), Some((d / 2 + 1, 0xfd)), Some((d.min(2), 0xfe)), Some((1, 0x31))];
        for (kind, to, value) in kinds {
            for leaf in ["store", "reset", "log", "create", "pay"] {
                for rev in revs {
                    for each in ["none", "store", "pay"] {
                        if d > 33 && (each != "none" && leaf != "store" || kind != CK::Call && leaf != "log" && leaf != "pay") && !thorough {
                            continue;
                        }
                        if d > 100 && !thorough && (each != "none" || leaf != "store" && leaf != "pay") {
                            continue;
                        }
                        let c = chain_code(kind, to, value, leaf, each, rev);
                        v.push(Extreme {
                            desc: format!("depth {d} of {kind:?} to {to} value {value}, {leaf} at the bottom, {each} everywhere, failing {rev:?}"),
                            world: world(&c),
                            tx: tx_call(CALLER, A, word(d), 0),
                            cap: None,
                        });
                    }
                }
            }
        }
        // nested creations: each init code creates a copy of itself with one wei less
        for (op, end) in [(0xf0u8, 0xf3u8), (0xf5, 0xf3), (0xf0, 0xfd)] {
            // CODESIZE PUSH0 PUSH0 CODECOPY; CALLVALUE ISZERO PUSH end JUMPI; create; end:
            let mut a = Asm::default().op(0x38).op(0x5f).op(0x5f).op(0x39).op(0x34).op(0x15);
            let mut cr = Asm::default();
            if op == 0xf5 {
                cr = cr.push(1);
            }
            cr = cr.op(0x38).op(0x5f).push(1).op(0x34).op(0x03).op(op).op(0x50);
            let e = a.code.len() + 4 + cr.code.len();
            a = a.op(0x61).ops(&(e as u16).to_be_bytes()).op(0x57).ops(&cr.code).op(0x5b);
            // a failing innermost creation
            let code = if end == 0xfd { a.op(0x34).op(0x15).op(0x15).push(e as u64 + 10).op(0x57).push(0).push(0).op(0xfd).op(0x5b).push(2).push(0).op(0xf3).build() } else { a.push(2).push(0).op(0xf3).build() };
            v.push(Extreme {
                desc: format!("{d} nested creations ({op:#x}, {end:#x})"),
                world: world(&[0]),
                tx: tx_create(CALLER, code, d as u128),
                cap: None,
            });
        }
    }
    // --- repetition
    let counts: &[u64] = if thorough {
        &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 2000, 4096]
    } else {
        &[1, 2, 3, 4, 6, 8, 9, 16, 17, 33, 65, 129, 257, 600]
    };
    for &n in counts {
        let init = Asm::default().push(3).push(0).op(0xf3).build();
        let reps: Vec<(&str, Asm)> = vec![
            ("stores", Asm::default().op(0x80).op(0x80).op(0x55)),
            ("stores to wide slots", Asm::default().op(0x80).op(0x80).push(200).op(0x1b).op(0x55)),
            ("stores to one slot", Asm::default().op(0x80).push(9).op(0x55)),
            ("sets and clears", Asm::default().op(0x80).push(1).op(0x16).push(9).op(0x55)),
            ("loads", Asm::default().op(0x80).op(0x54).op(0x50)),
            ("transient stores", Asm::default().op(0x80).op(0x80).op(0x5d)),
            ("logs", Asm::default().op(0x80).push(1).push(33).push(0).op(0xa2)),
            ("growing logs", Asm::default().op(0x80).op(0x80).push(0).op(0xa1)),
            ("payments to fresh accounts", Asm::default().push(0).push(0).push(0).push(0).push(1).op(0x85).push(0x5000).op(0x01).push(9_000_000).op(0xf1).op(0x50)),
            ("payments to one account", Asm::default().push(0).push(0).push(0).push(0).op(0x84).push_addr(NONE).push(9_000_000).op(0xf1).op(0x50)),
            ("calls of one contract", Asm::default().push(0).push(0).push(0).push(0).push(0).push_addr(C).push(9_000_000).op(0xf1).op(0x50)),
            ("paid calls of one contract", Asm::default().push(0).push(0).push(0).push(0).push(3).push_addr(C).push(9_000_000).op(0xf1).op(0x50)),
            ("balances", Asm::default().op(0x80).push(0x6000).op(0x01).op(0x31).op(0x50)),
            ("creations", Asm::default().mem(0, &init).push(init.len() as u64).push(0).push(0).op(0xf0).op(0x50)),
            ("paid salted creations", Asm::default().mem(0, &init).op(0x80).push(init.len() as u64).push(0).push(1).op(0xf5).op(0x50)),
            ("collisions", Asm::default().mem(0, &init).push(4).push(init.len() as u64).push(0).push(0).op(0xf5).op(0x50)),
        ];
        for (name, body) in reps {
            let mut w = world(&repeat(n, body));
            // adds its call value to a slot and fails from time to time
            w.set(C, 10, 1, &Asm::default().push(5).op(0x54).push(1).op(0x01).op(0x80).push(5).op(0x55).push(3).op(0x16).push(22).op(0x57).push(0).push(0).op(0xfd).op(0x5b).op(0x00).build());
            // then a payment and a creation, in a frame that was paid itself
            let mut paid = w.clone();
            let mut code = paid.acct(A).code.to_vec();
            code.pop();
            code.extend(Asm::default().push(0).push(0).push(0).push(0).push(1).push_addr(EOA).push(9_000_000).op(0xf1).op(0x50).mem(0, &init).push(init.len() as u64).push(0).push(1).op(0xf0).op(0x50).sstore(7, 7).op(0x00).build());
            paid.accts.get_mut(&A).unwrap().code = code.into();
            v.push(Extreme { desc: format!("{n} {name}"), world: w, tx: tx_call(CALLER, A, vec![], 0), cap: None });
            v.push(Extreme { desc: format!("{n} {name}, paid and paying"), world: paid, tx: tx_call(CALLER, A, vec![], 1), cap: None });
        }
    }
    // --- large numbers
    for k in BIG {
        for val in BIG {
            for orig in [U256::ZERO, U256::from(1), U256::MAX] {
                let code = Asm::default().push_u256(val).push_u256(k).op(0x55).push_u256(k).op(0x54).push_u256(val).push_u256(k).op(0x5d).push_u256(val).push_u256(k).push(64).push(0).op(0xa2).op(0x00).build();
                let mut w = world(&code);
                if !orig.is_zero() {
                    w.accts.get_mut(&A).unwrap().storage.insert(k, orig);
                }
                v.push(Extreme { desc: format!("slot {k:#x} from {orig:#x} to {val:#x}"), world: w, tx: tx_call(CALLER, A, vec![], 0), cap: None });
            }
        }
        for to in [NONE, EOA, B] {
            for rich in [false, true] {
                let code = Asm::default().push(0).push(0).push(0).push(0).push_u256(k).push_addr(to).push(100_000).op(0xf1).push(1).op(0x55).op(0x00).build();
                let mut w = world(&code);
                w.set(B, 3, 1, &[0]);
                if rich {
                    w.accts.get_mut(&A).unwrap().balance = U256::MAX - U256::from(1_000_000_000u64) * U256::from(ETHER) - U256::from(5000);
                }
                v.push(Extreme { desc: format!("paying {k:#x} to {to}, rich {rich}"), world: w, tx: tx_call(CALLER, A, vec![], 0), cap: None });
                for op in [0xf1u8, 0xf2] {
                    // all gas, and the callee tells how much it got
                    let code = Asm::default().push(0).push(0).push(0).push(0).push_u256(k).push_addr(to).push(u64::MAX).op(op).push(1).op(0x55).op(0x00).build();
                    let mut w = world(&code);
                    w.set(B, 3, 1, &Asm::default().op(0x5a).op(0x5f).op(0x52).push(32).op(0x5f).op(0xa0).op(0x00).build());
                    if rich {
                        w.accts.get_mut(&A).unwrap().balance = U256::MAX - U256::from(1_000_000_000u64) * U256::from(ETHER) - U256::from(5000);
                    }
                    v.push(Extreme { desc: format!("paying {k:#x} and all gas to {to} by {op:#x}, rich {rich}"), world: w, tx: tx_call(CALLER, A, vec![], 0), cap: None });
                }
                let mut w = world(&[0]);
                if rich {
                    w.accts.get_mut(&CALLER).unwrap().balance = U256::MAX - U256::from(9999) * U256::from(ETHER);
                }
                let mut tx = tx_call(CALLER, to, vec![], 0);
                tx.base.value = k;
                v.push(Extreme { desc: format!("transaction paying {k:#x} to {to}, rich {rich}"), world: w.clone(), tx: tx.clone(), cap: None });
                tx.base.kind = revm::primitives::TxKind::Create;
                tx.base.data = vec![0u8, 1, 2].into();
                v.push(Extreme { desc: format!("creation with {k:#x}, rich {rich}"), world: w, tx, cap: None });
            }
        }
    }
    // --- mixed calldata
    for n in [1usize, 2, 3, 31, 32, 33, 64, 100, 1000, 5000] {
        for m in [2usize, 3, 4, 10] {
            let data: Vec<u8> = (0..n).map(|i| if i % m == 0 { (i % 250) as u8 + 1 } else { 0 }).collect();
            let inv: Vec<u8> = data.iter().map(|b| if *b == 0 { 9 } else { 0 }).collect();
            for data in [data, inv] {
                v.push(Extreme { desc: format!("calldata of {n}, one in {m}"), world: world(&[0]), tx: tx_call(CALLER, A, data.clone(), 0), cap: None });
                let mut d = vec![0x5b, 0x00];
                d.extend(&data);
                v.push(Extreme { desc: format!("creation data of {n}, one in {m}"), world: world(&[0]), tx: tx_create(CALLER, d, 0), cap: None });
            }
        }
    }
    // --- large buckets
    for sh in [8u32, 9, 12, 16, 20, 24, 28, 32, 36, 40] {
        for delta in [-1i64, 0, 1, 256, 300] {
            let cap = ((1u64 << sh) as i64 + delta) as u64;
            if cap < 256 {
                continue;
            }
            let init = Asm::default().push(3).push(0).op(0xf3).build();
            let code = Asm::default()
                .sstore(1, 1)
                .sstore(2, 2)
                .push(0).push(0).push(0).push(0).push(1).push_addr(NONE).push(u64::MAX).op(0xf1).op(0x50)
                .mem(0, &init).push(init.len() as u64).push(0).push(0).op(0xf0).op(0x00).build();
            for (what, tx) in [
                ("call", tx_call(CALLER, A, vec![], 0)),
                ("payment", tx_call(CALLER, NONE2, vec![], 1)),
                ("creation", tx_create(CALLER, Asm::default().push(3).push(0).op(0xf3).build(), 0)),
            ] {
                v.push(Extreme { desc: format!("{what} with buckets of {cap}"), world: world(&code), tx, cap: Some(cap) });
            }
        }
    }
    // --- nonces
    for nonce in [1u64, 127, 128, 255, 256, 65_535, 65_536, u32::MAX as u64, 1 << 32, u64::MAX - 2, u64::MAX - 1, u64::MAX] {
        let init = Asm::default().push(3).push(0).op(0xf3).build();
        let code = Asm::default().mem(0, &init).push(init.len() as u64).push(0).push(0).op(0xf0).push(1).op(0x55).mem(0, &init).push(8).push(init.len() as u64).push(0).push(0).op(0xf5).push(2).op(0x55).op(0x00).build();
        let mut w = world(&code);
        w.accts.get_mut(&A).unwrap().nonce = nonce;
        v.push(Extreme { desc: format!("contract nonce {nonce}"), world: w.clone(), tx: tx_call(CALLER, A, vec![], 0), cap: None });
        w.accts.get_mut(&CALLER).unwrap().nonce = nonce;
        v.push(Extreme { desc: format!("sender nonce {nonce}"), world: w.clone(), tx: nonced(tx_call(CALLER, A, vec![], 0), nonce), cap: None });
        v.push(Extreme { desc: format!("creator nonce {nonce}"), world: w, tx: nonced(tx_create(CALLER, init, 1), nonce), cap: None });
    }
    // --- gas limits
    for g in [60_000_000u64, 10_000_000_000, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 53, 1 << 60, 1 << 62, 1 << 63, u64::MAX - 1, u64::MAX] {
        for each in ["none", "store"] {
            let c = chain_code(CK::Call, B, 1, "store", each, Some((2, 0xfd)));
            v.push(Extreme { desc: format!("gas limit {g}"), world: world(&c), tx: with_gas(tx_call(CALLER, A, word(4), 0), g), cap: None });
        }
    }
    // --- large single charges (the larger memory costs more than 2^32 gas)
    for off in [24_000_000u64, 50_000_000] {
        let bodies: Vec<(&str, Asm)> = vec![
            ("memory", Asm::default().push(1).push(off).op(0x52)),
            ("hash", Asm::default().push(off).push(0).op(0x20).op(0x50)),
            ("log", Asm::default().push(5).push(off).push(0).op(0xa1)),
            ("copied calldata", Asm::default().push(off).push(0).push(0).op(0x37)),
            ("call output", Asm::default().push(off).push(0).push(0).push(0).push(0).push_addr(EOA).push(1000).op(0xf1).op(0x50)),
        ];
        for (name, b) in bodies {
            if !thorough && off > 24_000_000 && name != "memory" && name != "call output" {
                continue;
            }
            let c = b.sstore(1, 1).op(0x00).build();
            v.push(Extreme { desc: format!("{name} up to {off}"), world: world(&c), tx: with_gas(tx_call(CALLER, A, vec![], 0), 1 << 40), cap: None });
            let mut w = world(&c);
            w.set(A, ETHER, 1, &Asm::default().push(0).push(0).push(0).push(0).push(0).push_addr(B).push(u64::MAX).op(0xf1).push(1).op(0x55).op(0x00).build());
            v.push(Extreme { desc: format!("inner {name} up to {off}"), world: w, tx: with_gas(tx_call(CALLER, A, vec![], 0), 1 << 40), cap: None });
        }
    }
    v
}
pub fn extreme(run: &Run, dims: &[Dim]) {
    // what a callee is told about its gas differs from the base chain's by design (C09 decides it)
    let ex: Vec<_> = extremes(run.thorough()).into_iter().filter(|x| !dims.contains(&Dim::Func) || !x.desc.contains("and all gas")).collect();
    let k = SETUPS.len() as u64;
    run.space(
        "extremes",
        "call and creation chains up to the depth limit, operations repeated up to hundreds of times, large keys, values, payments, nonces, capacities and gas limits, all specs",
        ex.len() as u64 * k,
        |i| format!("{} {:?}", ex[(i / k) as usize].desc, SETUPS[(i % k) as usize]),
        |i| {
            let (spec, cap) = SETUPS[(i % k) as usize];
            let x = &ex[(i / k) as usize];
            let s = Setup::new(spec).unlimited().salt(x.cap.unwrap_or(cap));
            compare(run, &x.world, &s, &x.tx, dims)
        },
    );
}
