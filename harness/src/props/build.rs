//! C34: an EVM depends on its settings, not on how or in which order they were given.
use super::keyless::nest_world;
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use alloy_evm::{EvmEnv, EvmFactory};
use alloy_primitives::{Address, B256, U256};
use mega_evm::{EvmTxRuntimeLimits, IntoOpCfgEnv, MegaContext, MegaEvm, MegaEvmFactory, MegaSpecId, MegaTransaction, MegaTransactionOutcome};
use op_revm::{DefaultOp, L1BlockInfo};
use revm::{
    context::{BlockEnv, CfgEnv, ContextSetters},
    inspector::NoOpInspector,
    state::EvmState,
    ExecuteCommitEvm, ExecuteEvm, InspectCommitEvm, InspectEvm,
};
use alloy_evm::Evm;
use revm::Database as _;
use std::{collections::BTreeMap, sync::Arc};

/// One complete set of settings.
#[derive(Clone)]
struct Settings {
    world: World,
    envs: McEnvs,
    cfg: CfgEnv<MegaSpecId>,
    block: BlockEnv,
    chain: L1BlockInfo,
    limits: EvmTxRuntimeLimits,
    no_sandbox: bool,
    no_reward: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Set {
    Envs,
    Cfg,
    Block,
    Chain,
    Limits,
    Db,
    Sandbox,
}
const SETS: [Set; 7] = [Set::Envs, Set::Cfg, Set::Block, Set::Chain, Set::Limits, Set::Db, Set::Sandbox];
type Ctx = MegaContext<McDb, McEnvs>;

fn apply(c: Ctx, s: Set, v: &Settings) -> Ctx {
    match s {
        Set::Envs => c.with_external_envs(v.envs.envs()),
        Set::Cfg => c.with_cfg(v.cfg.clone()),
        Set::Block => c.with_block(v.block.clone()),
        Set::Chain => c.with_chain(v.chain.clone()),
        Set::Limits => c.with_tx_runtime_limits(v.limits),
        Set::Db => c.with_db(McDb::new(&v.world)),
        Set::Sandbox => c.with_sandbox_disabled(v.no_sandbox),
    }
}

fn l1(x: u64) -> L1BlockInfo {
    let mut l = L1BlockInfo::default();
    l.l1_base_fee = U256::from(1_000 * x);
    l.l1_base_fee_scalar = U256::from(7);
    l.l1_blob_base_fee = Some(U256::from(3 * x));
    l.l1_blob_base_fee_scalar = Some(U256::from(5));
    l.operator_fee_scalar = Some(U256::from(2_000_000 * x));
    l.operator_fee_constant = Some(U256::from(100 * x));
    l
}

const NTX: usize = 12;
/// The contract at A, by the first byte of the calldata.
fn contract() -> Vec<u8> {
    let raw = |n: &'static str, a: Asm| Op::Raw(n, a.build());
    let burn = || Op::Raw("burn", Asm::default().push32(&[0xff; 32]).push(3).op(0x0a).op(0x50).build().repeat(28));
    let call = |to, value| Op::Call { kind: CK::Call, to, value, gas: G::All, body: None };
    let word = |op: u8, at: u64| Asm::default().op(op).push(0x1000 + 32 * at).op(0x52).code;
    let acc = |op: u8, a: Address| Op::Raw("access", Asm::default().push_addr(a).op(op).op(0x50).build());
    let bodies = vec![
        // storage gas: a new slot, a new account, a new contract
        Body::new(
            vec![Op::Sstore(9, 4), call(NONE, 1), Op::Create { two: false, value: 0, init: Body::new(vec![], End::Return(3)) }],
            End::Stop,
        ),
        Body::new(vec![Op::Raw("timestamp", vec![0x42, 0x50]), burn()], End::Stop),
        Body::new(vec![call(ORACLE, 0), burn()], End::Stop),
        Body::new(vec![Op::Log(4, 2_000), Op::Log(1, 1_500)], End::Stop),
        Body::new((0..9).map(|k| Op::Sstore(20 + k, 1)).collect(), End::Stop),
        Body::new(vec![acc(0x31, COINBASE), burn()], End::Stop),
        Body::new(vec![Op::Create { two: true, value: 0, init: Body::new(vec![], End::Return(101)) }], End::Stop),
        // what the block looks like
        Body::new(
            vec![Op::Raw(
                "environment",
                [0x43u8, 0x46, 0x48, 0x41, 0x44, 0x45].iter().enumerate().flat_map(|(i, o)| word(*o, i as u64)).collect(),
            )],
            End::Return(192),
        ),
        Body::new(vec![raw("blockhash", Asm::default().push(1).op(0x43).op(0x03).op(0x40).push(0x1000).op(0x52))], End::Return(32)),
        Body::new(vec![burn(), burn(), burn(), burn(), burn(), burn(), burn(), burn()], End::Stop),
    ];
    Image::compile_all(bodies, false)
}

fn world() -> &'static (World, Vec<u8>) {
    static W: std::sync::OnceLock<(World, Vec<u8>)> = std::sync::OnceLock::new();
    W.get_or_init(make_world)
}
fn make_world() -> (World, Vec<u8>) {
    let (mut w, request, _) = nest_world();
    w.set(A, 1_000, 1, &contract());
    // the oracle returns its slot 1
    w.set(ORACLE, 0, 1, &Asm::default().push(1).op(0x54).push(0).op(0x52).push(32).push(0).op(0xf3).build())
        .storage
        .insert(U256::from(1), U256::from(77));
    (w, request)
}

fn tx(i: usize, request: &[u8]) -> MegaTransaction {
    let mut t = match i {
        10 => tx_call(CALLER, KEYLESS, request.to_vec(), 0),
        11 => tx_create(CALLER, Image::compile_init(&Body::new(vec![Op::Sstore(1, 1)], End::Return(2)), false), 3),
        _ => tx_call(CALLER, A, vec![i as u8], 5),
    };
    t.base.gas_limit = 40_000_000;
    t.base.gas_price = 1_000_000;
    t.base.chain_id = Some(6342);
    t.enveloped_tx = Some(vec![1u8; 100].into());
    t
}

fn settings(spec: MegaSpecId, number: u64, flag: bool) -> Settings {
    let mut cfg = CfgEnv::new_with_spec(spec);
    cfg.chain_id = 6342;
    if flag {
        cfg.limit_contract_code_size = Some(100);
        cfg.limit_contract_initcode_size = Some(4_000);
    }
    let mut block = block_env();
    block.number = U256::from(number);
    block.basefee = 900_000;
    let mut envs = McEnvs::default();
    envs.salt = McSalt::uniform(768);
    envs.oracle.values = Arc::new(BTreeMap::from([(U256::from(1), U256::from(5))]));
    let mut limits = EvmTxRuntimeLimits::no_limits();
    limits.tx_data_size_limit = 3_600;
    limits.tx_kv_updates_limit = 10;
    limits.tx_compute_gas_limit = 300_000;
    limits.tx_state_growth_limit = 8;
    limits.block_env_access_compute_gas_limit = 60_000;
    limits.oracle_access_compute_gas_limit = 50_000;
    Settings { world: world().0.clone(), envs, cfg, block, chain: l1(1), limits, no_sandbox: flag, no_reward: flag }
}
/// Settings that differ from the real ones in everything.
fn decoy(spec: MegaSpecId, flag: bool) -> Settings {
    let mut s = settings(spec, 5, flag);
    s.world = base_world();
    s.envs = McEnvs::default();
    s.envs.salt = McSalt::uniform(256 * 9);
    s.envs.oracle.values = Arc::new(BTreeMap::from([(U256::from(1), U256::from(6))]));
    s.cfg.chain_id = 9;
    s.cfg.limit_contract_code_size = Some(2);
    s.cfg.limit_contract_initcode_size = Some(3);
    s.cfg.disable_nonce_check = true;
    s.block.beneficiary = EOA;
    s.block.timestamp = U256::from(77);
    s.block.basefee = 3;
    s.block.prevrandao = Some(B256::ZERO);
    s.chain = l1(1_000);
    let l = &mut s.limits;
    l.tx_data_size_limit = 1_000;
    l.tx_kv_updates_limit = 3;
    l.tx_compute_gas_limit = 100_000;
    l.tx_state_growth_limit = 1;
    l.block_env_access_compute_gas_limit = 30_000;
    l.oracle_access_compute_gas_limit = 31_000;
    s.no_sandbox = !flag;
    s
}

#[derive(Debug, PartialEq, Eq)]
struct Seen {
    res: Result<(Obs, [u64; 4], World), String>,
    buckets: Vec<u32>,
    oracle: Vec<OracleEv>,
}
impl Seen {
    fn key(&self) -> String {
        format!("{:?}", self.res.as_ref().map(|(o, u, _)| (o, u)))
    }
}
fn seen(s: &Settings, r: Result<MegaTransactionOutcome, MegaErr>, mut buckets: Vec<u32>) -> Seen {
    buckets.sort();
    Seen {
        res: match r {
            Ok(o) => Ok((
                obs(&o.result),
                [o.data_size, o.kv_updates, o.compute_gas_used, o.state_growth_used],
                post_world(&s.world, &o.state),
            )),
            Err(e) => Err(format!("{e:?}")),
        },
        buckets,
        oracle: s.envs.oracle.trace.borrow().clone(),
    }
}
fn run_ctx(s: &Settings, c: Ctx, t: &MegaTransaction) -> Seen {
    s.envs.oracle.trace.borrow_mut().clear();
    let mut e = MegaEvm::new(c);
    let r = e.execute_transaction(t.clone());
    let b = e.get_accessed_bucket_ids();
    seen(s, r, b)
}
fn finish(c: Ctx, s: &Settings) -> Ctx {
    let mut c = c;
    if s.no_reward {
        c.disable_beneficiary();
    }
    c
}
/// The plain way: everything once, for the right spec.
fn plain(s: &Settings) -> Ctx {
    let mut c = MegaContext::new(McDb::new(&s.world), s.cfg.spec)
        .with_external_envs(s.envs.envs())
        .with_cfg(s.cfg.clone())
        .with_block(s.block.clone())
        .with_chain(s.chain.clone())
        .with_tx_runtime_limits(s.limits);
    c = finish(c, s);
    c.with_sandbox_disabled(s.no_sandbox)
}

fn permutation(mut i: u64) -> Vec<Set> {
    let mut left = SETS.to_vec();
    let mut v = vec![];
    while !left.is_empty() {
        v.push(left.remove((i % left.len() as u64) as usize));
        i /= (left.len() + 1) as u64;
    }
    v
}

/// Counts what it is shown: steps, calls and their ends, creations and their ends, logs.
#[derive(Clone, Default)]
struct Watch(std::rc::Rc<std::cell::RefCell<[u64; 6]>>);
impl<CTX> revm::Inspector<CTX> for Watch {
    fn step(&mut self, _: &mut revm::interpreter::Interpreter, _: &mut CTX) {
        self.0.borrow_mut()[0] += 1;
    }
    fn call(&mut self, _: &mut CTX, _: &mut revm::interpreter::CallInputs) -> Option<revm::interpreter::CallOutcome> {
        self.0.borrow_mut()[1] += 1;
        None
    }
    fn call_end(&mut self, _: &mut CTX, _: &revm::interpreter::CallInputs, _: &mut revm::interpreter::CallOutcome) {
        self.0.borrow_mut()[2] += 1;
    }
    fn create(&mut self, _: &mut CTX, _: &mut revm::interpreter::CreateInputs) -> Option<revm::interpreter::CreateOutcome> {
        self.0.borrow_mut()[3] += 1;
        None
    }
    fn create_end(&mut self, _: &mut CTX, _: &revm::interpreter::CreateInputs, _: &mut revm::interpreter::CreateOutcome) {
        self.0.borrow_mut()[4] += 1;
    }
    fn log(&mut self, _: &mut revm::interpreter::Interpreter, _: &mut CTX, _: alloy_primitives::Log) {
        self.0.borrow_mut()[5] += 1;
    }
}
const SWITCHES: [&str; 8] = ["limits", "block", "run", "enable", "disable", "another inspector", "no inspector, then again", "inspector through components"];

/// An inspector sees the transactions executed while it is enabled, all of each, and no others.
fn switches(run: &Run) {
    let max = run.pick(3, 5);
    let k = SWITCHES.len() as u64;
    let nseq: u64 = (0..=max).map(|n| k.pow(n)).sum();
    let seq_at = move |mut i: u64| {
        let mut n = 0;
        while i >= k.pow(n) {
            i -= k.pow(n);
            n += 1;
        }
        (0..n).map(|d| (i / k.pow(d) % k) as usize).collect::<Vec<_>>()
    };
    const TXS: [usize; 4] = [0, 3, 8, 11];
    const HOW: [&str; 5] = ["execute_transaction", "transact_raw", "inspect_transaction", "inspect_tx", "transact_one"];
    let dec = move |i: u64| {
        let spec = [MegaSpecId::EQUIVALENCE, MegaSpecId::REX3][(i % 2) as usize];
        (spec, (i / 2 % 3) as usize, (i / 6 % HOW.len() as u64) as usize, seq_at(i / 6 / HOW.len() as u64))
    };
    run.space(
        "inspector switch",
        &format!("2 specs x 3 routes to an inspected EVM x {HOW:?} x every sequence of at most {max} of {SWITCHES:?}, each for 4 transactions"),
        6 * HOW.len() as u64 * nseq,
        |i| {
            let d = dec(i);
            format!("{:?} route {} {} {:?}", d.0, d.1, HOW[d.2], d.3.iter().map(|x| SWITCHES[*x]).collect::<Vec<_>>())
        },
        |i| {
            let (spec, route, how, seq) = dec(i);
            let s = settings(spec, 1_000, false);
            let request = &world().1;
            let mut h = vec![];
            for j in TXS {
                let t = tx(j, request);
                // what there is to see
                let w = Watch::default();
                let _ = MegaEvm::new(plain(&s)).with_inspector(w.clone()).inspect_transaction(t.clone());
                let whole = *w.0.borrow();
                ensure!(whole[0] > 0 && whole[1] == whole[2] && whole[3] == whole[4], "inspection of transaction {j} saw {whole:?}");
                let mut w = Watch::default();
                let mut on = true;
                let env = EvmEnv { cfg_env: s.cfg.clone(), block_env: s.block.clone() };
                let f = MegaEvmFactory::new().with_external_env_factory(s.envs.clone());
                let mut e = match route {
                    0 => MegaEvm::new(plain(&s)).with_inspector(w.clone()),
                    1 => f.create_evm_with_inspector(McDb::new(&s.world), env, w.clone()),
                    _ => f
                        .with_dyn_precompiles_builder(Arc::new(|_| Default::default()))
                        .create_evm_with_inspector(McDb::new(&s.world), env, w.clone()),
                };
                if route > 0 {
                    e.ctx.chain = s.chain.clone();
                    e = e.with_tx_runtime_limits(s.limits);
                }
                for x in &seq {
                    match *x {
                        0 => e = e.with_tx_runtime_limits(s.limits),
                        1 => revm::ExecuteEvm::set_block(&mut e, s.block.clone()),
                        2 => {
                            let before = *w.0.borrow();
                            let _ = e.execute_transaction(t.clone());
                            let now = *w.0.borrow();
                            let want: [u64; 6] = std::array::from_fn(|i| before[i] + if on { whole[i] } else { 0 });
                            ensure_eq!(now, want, "seen of an earlier run of transaction {j}, enabled {on}");
                        }
                        3 | 4 => {
                            on = *x == 3;
                            e.set_inspector_enabled(on);
                        }
                        5 => {
                            w = Watch::default();
                            e = e.with_inspector(w.clone());
                            on = true;
                        }
                        6 => {
                            w = Watch::default();
                            e = e.without_inspector().with_inspector(w.clone());
                            on = true;
                        }
                        _ => {
                            w = Watch::default();
                            *e.inspector_mut() = w.clone();
                        }
                    }
                }
                let before = *w.0.borrow();
                let sees = match how {
                    0 => {
                        let _ = e.execute_transaction(t.clone());
                        on
                    }
                    1 => {
                        let _ = e.transact_raw(t.clone());
                        on
                    }
                    2 => {
                        let _ = e.inspect_transaction(t.clone());
                        true
                    }
                    3 => {
                        let _ = e.inspect_tx(t.clone());
                        true
                    }
                    _ => {
                        let _ = e.transact_one(t.clone());
                        false
                    }
                };
                let want: [u64; 6] = std::array::from_fn(|i| before[i] + if sees { whole[i] } else { 0 });
                ensure_eq!(*w.0.borrow(), want, "seen of transaction {j}, enabled {on}");
                h.push(want);
            }
            Ok(Case { state: hash_of(&h), transitions: 4 * (seq.len() as u64 + 1), traces: 4 })
        },
    );
}

const STEPS: [&str; 7] = ["limits", "inspector", "no inspector", "run and discard", "block", "decoy limits", "decoy block"];
const ROUTES: [&str; 5] = ["context", "factory", "factory with inspector", "op context", "setters"];

pub fn c34(run: &Run) {
    switches(run);
    // every order
    let masks: Vec<u32> = if run.thorough() {
        let mut v = vec![0, 127];
        v.extend((0..7).map(|b| 1 << b));
        v.extend((0..7).map(|b| 127 ^ (1 << b)));
        v
    } else {
        vec![0, 127]
    };
    let firsts: usize = run.pick(2, 7);
    let (nm, nf) = (masks.len() as u64, firsts as u64);
    // quick: both sets of settings for every other permutation each
    let flags = run.pick(1, 2);
    let radix = 5_040 * nf * nm * 7 * flags;
    let dec = |i: u64| {
        let spec = ALL_SPECS[(i % 7) as usize];
        let (flag, i) = if flags == 2 { (i / 7 % 2, i % 7 + i / 14 * 7) } else { (i / 7 / nf / nm % 2, i) };
        let flag = flag == 1;
        let first = (i / 7 % nf) as usize;
        // the spec the context was created with
        let first = if firsts == 7 {
            ALL_SPECS[first]
        } else {
            // another one for every permutation
            ALL_SPECS[(i % 7 + if first == 0 { 0 } else { 1 + i / 7 / nf / nm % 6 }) as usize % 7]
        };
        let mask = masks[(i / 7 / nf % nm) as usize];
        (spec, flag, first, mask, permutation(i / 7 / nf / nm))
    };
    // what the plain way gives
    let refs: Vec<Vec<Seen>> = (0..14)
        .map(|i| {
            let s = settings(ALL_SPECS[i % 7], 1_000, i / 7 == 1);
            let request = &world().1;
            (0..NTX).map(|j| run_ctx(&s, plain(&s), &tx(j, request))).collect()
        })
        .collect();
    run.space(
        "orders",
        "every order of the 7 settings of a context x settings given before and overridden x the spec the context was created for x 7 specs x 2 sets of settings, each for 12 transactions",
        radix,
        |i| format!("{:?}", dec(i)),
        |i| {
            let (spec, flag, first, mask, order) = dec(i);
            let s = settings(spec, 1_000, flag);
            let d = decoy(first, flag);
            let request = &world().1;
            let mut h = vec![];
            for j in 0..NTX {
                let mut c = MegaContext::new(McDb::new(&d.world), first).with_external_envs(d.envs.envs());
                for (b, x) in SETS.iter().enumerate() {
                    if mask >> b & 1 == 1 {
                        c = apply(c, *x, &d);
                    }
                }
                for x in &order {
                    c = apply(c, *x, &s);
                    if *x == Set::Sandbox {
                        c = finish(c, &s);
                    }
                }
                ensure_eq!(c.mega_spec(), spec, "the spec");
                let got = run_ctx(&s, c, &tx(j, request));
                ensure_eq!(got, refs[i as usize % 7 + 7 * flag as usize][j], "transaction {j}");
                h.push(hash_of(&got.key()));
            }
            ensure!(d.envs.salt.lookups.borrow().is_empty() && d.envs.oracle.trace.borrow().is_empty(), "the overridden services were asked");
            Ok(Case { state: hash_of(&h), transitions: NTX as u64 * 14, traces: NTX as u64 })
        },
    );

    // every route to an EVM, and what may be done with it before the transaction
    let max = run.pick(2, 4);
    let nseq: u64 = (0..=max).map(|k| (STEPS.len() as u64).pow(k)).sum();
    let seq_at = |mut i: u64| {
        let mut k = 0;
        while i >= (STEPS.len() as u64).pow(k) {
            i -= (STEPS.len() as u64).pow(k);
            k += 1;
        }
        (0..k).map(|d| (i / (STEPS.len() as u64).pow(d) % STEPS.len() as u64) as usize).collect::<Vec<_>>()
    };
    const NUMS: [u64; 3] = [0, 1, 1_000];
    let dec = move |i: u64| {
        let spec = ALL_SPECS[(i % 7) as usize];
        let flag = i / 7 % 2 == 1;
        let num = NUMS[(i / 14 % 3) as usize];
        let route = (i / 42 % ROUTES.len() as u64) as usize;
        (spec, flag, num, route, seq_at(i / 42 / ROUTES.len() as u64))
    };
    run.space(
        "routes",
        &format!("7 specs x 2 sets of settings x block numbers {NUMS:?} x {ROUTES:?} x every sequence of at most {max} of {STEPS:?}, each for 12 transactions"),
        42 * ROUTES.len() as u64 * nseq,
        |i| {
            let d = dec(i);
            format!("{:?} {:?} block {} {} {:?}", d.0, d.1, d.2, ROUTES[d.3], d.4.iter().map(|x| STEPS[*x]).collect::<Vec<_>>())
        },
        |i| {
            let (spec, flag, num, route, seq) = dec(i);
            let s = settings(spec, num, flag);
            let d = decoy(spec, flag);
            let request = &world().1;
            let mut h = vec![];
            for j in 0..NTX {
                let t = tx(j, request);
                let want = run_ctx(&s, plain(&s), &t);
                s.envs.oracle.trace.borrow_mut().clear();
                let db = McDb::new(&s.world);
                let env = EvmEnv { cfg_env: s.cfg.clone(), block_env: s.block.clone() };
                let e = match route {
                    0 => MegaEvm::new(plain(&s)),
                    1 => MegaEvmFactory::new().with_external_env_factory(s.envs.clone()).create_evm(db, env),
                    2 => MegaEvmFactory::new().with_external_env_factory(s.envs.clone()).create_evm_with_inspector(db, env, NoOpInspector),
                    3 => {
                        #[allow(deprecated)]
                        let c = MegaContext::new_with_context(
                            op_revm::OpContext::op()
                                .with_db(db)
                                .with_cfg(s.cfg.clone().into_op_cfg())
                                .with_block(s.block.clone())
                                .with_chain(s.chain.clone()),
                            spec,
                            s.envs.envs(),
                        );
                        MegaEvm::new(c)
                    }
                    _ => {
                        let mut c = plain(&s).with_block(d.block.clone());
                        c.set_block(s.block.clone());
                        MegaEvm::new(c)
                    }
                };
                let inner = e.into_inner();
                let mut c = finish(inner.ctx, &s).with_chain(s.chain.clone()).with_sandbox_disabled(s.no_sandbox);
                if matches!(route, 1..=3) {
                    c = c.with_tx_runtime_limits(s.limits);
                }
                let mut e = MegaEvm::new(c);
                if route == 2 {
                    e = e.with_inspector(NoOpInspector);
                }
                for x in &seq {
                    match *x {
                        0 => e = e.with_tx_runtime_limits(s.limits),
                        1 => e = e.with_inspector(NoOpInspector),
                        2 => e = e.without_inspector(),
                        3 => {
                            // (before REX1 a lowered limit outlives its transaction: C10, C13)
                            let k = if matches!(rank(spec), 1 | 2) { 0 } else { (j + 1) % NTX };
                            let _ = e.execute_transaction(tx(k, request));
                        }
                        4 => revm::ExecuteEvm::set_block(&mut e, s.block.clone()),
                        5 => e = e.with_tx_runtime_limits(d.limits).with_tx_runtime_limits(s.limits),
                        _ => {
                            revm::ExecuteEvm::set_block(&mut e, d.block.clone());
                            revm::ExecuteEvm::set_block(&mut e, s.block.clone());
                        }
                    }
                }
                s.envs.oracle.trace.borrow_mut().clear();
                let before = seq.iter().rposition(|x| *x == 3).is_some_and(|p| !seq[p..].iter().any(|x| *x == 4 || *x == 6));
                let r = e.execute_transaction(t.clone());
                let b = e.get_accessed_bucket_ids();
                let mut got = seen(&s, r, b);
                if before {
                    // buckets are remembered for the whole block
                    got.buckets.retain(|x| want.buckets.contains(x));
                }
                ensure_eq!(got, want, "transaction {j}");
                h.push(hash_of(&got.key()));
                // finishing gives the settings back
                let (_, env) = alloy_evm::Evm::finish(e);
                ensure_eq!(env.block_env, s.block, "the block given back");
                let mut cfg = s.cfg.clone();
                if rank(spec) >= 1 && !flag {
                    cfg.limit_contract_code_size = env.cfg_env.limit_contract_code_size;
                    cfg.limit_contract_initcode_size = env.cfg_env.limit_contract_initcode_size;
                }
                ensure_eq!(env.cfg_env, cfg, "the configuration given back");
            }
            Ok(Case { state: hash_of(&h), transitions: (seq.len() as u64 + 2) * NTX as u64, traces: NTX as u64 })
        },
    );

    // every interface that executes a transaction
    let dec = |i: u64| (ALL_SPECS[(i % 7) as usize], i / 7 % 2 == 1, (i / 14 % IFACES.len() as u64) as usize, (i / 14 / IFACES.len() as u64) as usize);
    run.space(
        "interfaces",
        &format!("7 specs x 2 sets of settings x {IFACES:?} x 12 transactions and one that is rejected, followed by another one"),
        14 * IFACES.len() as u64 * (NTX as u64 + 1),
        |i| {
            let d = dec(i);
            format!("{:?} {} {} transaction {}", d.0, d.1, IFACES[d.2], d.3)
        },
        |i| {
            let (spec, flag, iface, j) = dec(i);
            let s = settings(spec, 1_000, flag);
            let request = &world().1;
            let mut t = tx(j.min(NTX - 1), request);
            if j == NTX {
                t.base.nonce = 7;
            }
            let res = |o: &Obs, st: &EvmState| (o.clone(), post_world(&s.world, st));
            let want = MegaEvm::new(plain(&s)).execute_transaction(t.clone());
            let want = want.map(|m| (res(&obs(&m.result), &m.state), [m.data_size, m.kv_updates, m.compute_gas_used, m.state_growth_used])).map_err(|e| format!("{e:?}"));
            let mut c = plain(&s);
            if iface == 5 {
                c = c.with_tx(t.clone());
            }
            let mut e = MegaEvm::new(c);
            let got: Result<(Obs, World), String> = match iface {
                0 => Evm::transact(&mut e, t.clone()).map(|r| res(&obs(&r.result), &r.state)).map_err(|e| format!("{e:?}")),
                1 => e.transact_raw(t.clone()).map(|r| res(&obs(&r.result), &r.state)).map_err(|e| format!("{e:?}")),
                2 => ExecuteEvm::transact(&mut e, t.clone()).map(|r| res(&obs(&r.result), &r.state)).map_err(|e| format!("{e:?}")),
                3 => {
                    let r = e.transact_one(t.clone());
                    let st = e.finalize();
                    r.map(|r| res(&obs(&r), &st)).map_err(|e| format!("{e:?}"))
                }
                4 => e.transact_many_finalize([t.clone()].into_iter()).map(|r| res(&obs(&r.result[0]), &r.state)).map_err(|e| format!("{e:?}")),
                5 => {
                    let r = e.replay().map(|r| res(&obs(&r.result), &r.state)).map_err(|e| format!("{e:?}"));
                    e.finalize();
                    r
                }
                6 => e.inspect_tx(t.clone()).map(|r| res(&obs(&r.result), &r.state)).map_err(|e| format!("{e:?}")),
                7 => e.inspect(t.clone(), NoOpInspector).map(|r| res(&obs(&r.result), &r.state)).map_err(|e| format!("{e:?}")),
                8 => {
                    let r = e.inspect_one_tx(t.clone());
                    let st = e.finalize();
                    r.map(|r| res(&obs(&r), &st)).map_err(|e| format!("{e:?}"))
                }
                9 => {
                    #[allow(deprecated)]
                    let r = e.inspect_transaction(t.clone());
                    r.map(|r| res(&obs(&r.result), &r.state)).map_err(|e| format!("{e:?}"))
                }
                _ => {
                    // commits to its database itself
                    let mut e = MegaEvm::new(plain(&s).with_db(CommitDb { db: McDb::new(&s.world), world: s.world.clone() }));
                    let r = if iface == 10 { ExecuteCommitEvm::transact_commit(&mut e, t.clone()) } else { e.inspect_tx_commit(t.clone()) };
                    let r = r.map(|r| (obs(&r), e.journaled_state().database.world.clone())).map_err(|e| format!("{e:?}"));
                    ensure_eq!(r, want.clone().map(|w| w.0), "result and state committed");
                    // and the next one starts from there
                    let mut next = tx(0, request);
                    let w = &e.journaled_state().database.world.clone();
                    next.base.nonce = w.nonce(CALLER);
                    let s2 = Settings { world: w.clone(), ..s.clone() };
                    let a = MegaEvm::new(plain(&s2)).execute_transaction(next.clone()).map(|m| (obs(&m.result), post_world(w, &m.state))).map_err(|e| format!("{e:?}"));
                    if rank(spec) == 1 || rank(spec) == 2 {
                        // (a lowered limit may outlive its transaction: C13)
                        return Ok(Case { state: hash_dbg(&r), transitions: 2, traces: 1 });
                    }
                    let b = ExecuteCommitEvm::transact_commit(&mut e, next).map(|r| (obs(&r), e.journaled_state().database.world.clone())).map_err(|e| format!("{e:?}"));
                    ensure_eq!(b, a, "the next transaction");
                    return Ok(Case { state: hash_dbg(&(r, b)), transitions: 4, traces: 2 });
                }
            };
            ensure_eq!(got, want.clone().map(|w| w.0), "result and state");
            if let Ok((_, usage)) = &want {
                let u = e.ctx.additional_limit.borrow().get_usage();
                ensure_eq!([u.data_size, u.kv_updates, u.compute_gas, u.state_growth], *usage, "usage");
                ensure_eq!((e.ctx.generated_data_size(), e.ctx.kv_update_count()), (usage[0], usage[1]), "usage reported by the context");
            }
            ensure!(e.journaled_state().state.is_empty(), "the journal is not empty afterwards");
            Ok(Case { state: hash_dbg(&got), transitions: 2, traces: 1 })
        },
    );
}
const IFACES: [&str; 12] = [
    "transact",
    "transact_raw",
    "ExecuteEvm::transact",
    "transact_one, finalize",
    "transact_many_finalize",
    "with_tx, replay",
    "inspect_tx",
    "inspect",
    "inspect_one_tx, finalize",
    "inspect_transaction",
    "transact_commit",
    "inspect_tx_commit",
];

/// A database that takes commits.
#[derive(Debug)]
struct CommitDb {
    db: McDb,
    world: World,
}
impl revm::Database for CommitDb {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<revm::state::AccountInfo>, DbErr> {
        self.db.basic(a)
    }
    fn code_by_hash(&mut self, h: B256) -> Result<revm::bytecode::Bytecode, DbErr> {
        self.db.code_by_hash(h)
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DbErr> {
        self.db.storage(a, k)
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        self.db.block_hash(n)
    }
}
impl revm::DatabaseCommit for CommitDb {
    fn commit(&mut self, st: revm::primitives::HashMap<Address, revm::state::Account>) {
        self.world.commit(&st);
        self.db = McDb::new(&self.world);
    }
}
