//! Forwarded gas (C09), SELFDESTRUCT (C16), code sizes (C17), precompiles (C18), reported
//! accesses (C27).
use super::exec::*;
use crate::{common::*, ensure, ensure_eq, prog::*, reft::*, runner::*};
use alloy_evm::{EvmEnv, EvmFactory};
use alloy_primitives::{keccak256, Address, Bytes, B256, U256};
use mega_evm::{MegaContext, MegaEvm, MegaEvmFactory, MegaSpecId, MegaTransaction};
use revm::{
    context::{result::ExecutionResult, CfgEnv},
    interpreter::{
        interpreter::EthInterpreter, CallInputs, CallOutcome, CreateInputs, CreateOutcome,
    },
    primitives::TxKind,
    Inspector,
};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C09

/// Records the gas limit every frame starts with.
#[derive(Default, Clone)]
pub struct FrameGas(pub Vec<u64>);
impl<CTX> Inspector<CTX, EthInterpreter> for FrameGas {
    fn call(&mut self, _: &mut CTX, c: &mut CallInputs) -> Option<CallOutcome> {
        self.0.push(c.gas_limit);
        None
    }
    fn create(&mut self, _: &mut CTX, c: &mut CreateInputs) -> Option<CreateOutcome> {
        self.0.push(c.gas_limit);
        None
    }
}

fn fwd_alphabet() -> Alphabet {
    let call = |kind, to, value, gas| Op::Call { kind, to, value, gas, body: None };
    Alphabet {
        leaves: vec![
            gas_log(),
            Op::Sstore(1, 7),
            Op::Sstore(5, 0),
            call(CK::Call, EOA, 1, G::Lim(0)),
            call(CK::Call, EOA, 1, G::All),
            call(CK::Call, NONE, 1, G::Lim(7)),
        ],
        calls: vec![
            call(CK::Call, B, 0, G::All),
            call(CK::Call, B, 1, G::All),
            call(CK::Call, B, 1, G::Lim(40_000)),
            call(CK::CallCode, B, 0, G::All),
            call(CK::CallCode, B, 1, G::Lim(40_000)),
            call(CK::Delegate, B, 0, G::All),
            call(CK::Delegate, B, 0, G::Lim(40_000)),
            call(CK::Static, B, 0, G::All),
            call(CK::Call, DELEG, 0, G::All),
        ],
        creates: vec![
            Op::Create { two: false, value: 0, init: Body::new(vec![], End::Stop) },
            Op::Create { two: true, value: 1, init: Body::new(vec![], End::Stop) },
        ],
        call_ends: vec![End::Stop, End::Revert, End::Invalid],
        init_ends: vec![End::Return(2), End::RevertN(3)],
        top_ends: vec![End::Stop],
        max_depth: 3,
    }
}

/// The gas every frame gets and every GAS instruction reads equals the reference's.
fn check_forwarding(w: &World, s: &Setup, tx: &MegaTransaction) -> CaseResult {
    let db = McDb::new(w);
    let r = ref_run(&db, s, tx, IMPL);
    let m = mega_run(&db, s, tx.clone());
    if r.t.rejected || r.t.initial_oog || r.t.diverged || r.result.is_err() {
        return Ok(Case::default());
    }
    let m = m.map_err(|e| Bad { what: format!("rejected: {e:?}") })?;
    let mut evm = MegaEvm::new(mega_ctx(db, s)).with_inspector(FrameGas::default());
    evm.execute_transaction(tx.clone()).map_err(|e| Bad { what: format!("inspected: {e:?}") })?;
    let frames = evm.inspector.0.clone();
    ensure_eq!(frames, r.t.frame_gas, "gas of the frames, in order");
    ensure_eq!(m.result.gas_used(), r.t.gas_used(super::exec::floor_gas(rank(s.spec), tx), 0), "gas used");
    if let ExecutionResult::Success { logs, .. } = &m.result {
        let reads: Vec<u64> = logs
            .iter()
            .filter(|l| l.data.data.len() == 32)
            .map(|l| U256::from_be_slice(&l.data.data).to())
            .collect();
        ensure_eq!(reads, r.t.gas_reads, "values of GAS, in order");
    }
    Ok(Case { state: hash_dbg(&frames), transitions: r.t.steps, traces: 2 })
}

pub fn c09(run: &Run) {
    let al = fwd_alphabet();
    let n = run.pick(3, 4);
    let gas: &[u64] = run.pick(&[HUGE_GAS, 400_000], &[HUGE_GAS, 30_000_000, 400_000]);
    let (k, g) = (SETUPS.len() as u64, gas.len() as u64);
    run.space(
        "programs",
        &format!("all program trees with <= {n} nodes x {} specs x gas limits {gas:?}", SETUPS.len()),
        al.total(n) * k * g,
        |i| format!("{:?} {:?} gas {}", al.at(n, i / k / g), SETUPS[(i / g % k) as usize], gas[(i % g) as usize]),
        |i| {
            let (spec, cap) = SETUPS[(i / g % k) as usize];
            let w = prog_world(&al.at(n, i / k / g), false);
            let s = Setup::new(spec).unlimited().salt(cap);
            check_forwarding(&w, &s, &with_gas(tx_call(CALLER, A, vec![], 0), gas[(i % g) as usize]))
        },
    );
    let ex: Vec<_> = extremes(run.thorough()).into_iter().filter(|x| !x.desc.contains("growing logs")).collect();
    let gas: &[u64] = run.pick(&[0, 5_000_000], &[0, 30_000_000, 5_000_000, 300_000]);
    let g = gas.len() as u64;
    run.space(
        "extremes",
        &format!("deep chains, long repetitions and large numbers, all specs, gas limits ample and {gas:?}"),
        ex.len() as u64 * k * g,
        |i| format!("{} {:?} gas {}", ex[(i / k / g) as usize].desc, SETUPS[(i / g % k) as usize], gas[(i % g) as usize]),
        |i| {
            let x = &ex[(i / k / g) as usize];
            let (spec, cap) = SETUPS[(i / g % k) as usize];
            let s = Setup::new(spec).unlimited().salt(x.cap.unwrap_or(cap));
            let gas = gas[(i % g) as usize];
            check_forwarding(&x.world, &s, &if gas == 0 { x.tx.clone() } else { with_gas(x.tx.clone(), gas) })
        },
    );
    // one call with a requested amount, around the point where the cap starts to bind
    let kinds = [(CK::Call, 0u64), (CK::Call, 1), (CK::CallCode, 0), (CK::CallCode, 1), (CK::Delegate, 0), (CK::Static, 0)];
    let lims = [G::All, G::Lim(98_000), G::Lim(1_000)];
    let (lo, hi): (i64, i64) = run.pick((-480, 120), (-2600, 400));
    let step = (hi - lo) as u64;
    let nk = (kinds.len() as u64 * lims.len() as u64 + 1) * 2;
    run.space(
        "cap boundary",
        "CREATE, CREATE2; every call kind x value x requested gas {all, 98000, 1000} x target x every remaining gas in a window around the cap, all specs",
        nk * step * k * 2,
        |i| format!("{i}"),
        |i| {
            let (i, quiet) = (i / 2, i % 2 == 1);
            let d = lo + (i % step) as i64;
            let (spec, _) = SETUPS[(i / step % k) as usize];
            let v = i / step / k;
            let (v, create) = if v < 2 { (0, Some(v == 1)) } else { (v - 2, None) };
            let (kind, value) = kinds[(v % kinds.len() as u64) as usize];
            let v = v / kinds.len() as u64;
            let gas = lims[(v % lims.len() as u64) as usize];
            let to = if v / lims.len() as u64 == 0 { B } else { EOA };
            // with little gas left nothing can be logged, but the gas used tells
            let logs = if quiet { vec![] } else { vec![gas_log()] };
            let body = Some(Body::new(logs.clone(), End::Stop));
            let op = match create {
                Some(two) => Op::Create { two, value: 0, init: Body::new(logs.clone(), if quiet { End::Stop } else { End::Return(0) }) },
                None => Op::Call { kind, to, value, gas, body },
            };
            let p = Body::new([vec![op], logs].concat(), End::Stop);
            let w = prog_world(&p, false);
            let s = Setup::new(spec).unlimited();
            let tx = tx_call(CALLER, A, vec![], 0);
            let t = ref_run(&McDb::new(&w), &s, &tx, IMPL).t;
            let Some(e) = t.evs.iter().find(|e| e.in_flight > 0 || e.in_flight_uncapped > 0) else {
                return Ok(Case::default());
            };
            let room = match gas {
                G::All => 300,
                G::Lim(1_000) => 1_020,
                _ => 100_000,
            };
            let g = (e.spent as i64 + room + d).max(0) as u64;
            check_forwarding(&w, &s, &with_gas(tx, g))
                .map_err(|b| Bad { what: format!("{p:?} {spec:?} gas {g}: {}", b.what) })
        },
    );
}

// ------------------------------------------------------------------ C16

pub fn c16(run: &Run) {
    let mut al = general(true);
    al.leaves.retain(|l| matches!(l, Op::SelfDestruct(_) | Op::Sstore(..)) || matches!(l, Op::Call { to, value: 1, .. } if *to == NONE));
    al.leaves.push(Op::SelfDestruct(A));
    al.leaves.push(Op::SelfDestruct(B));
    al.leaves.push(Op::SelfDestruct(COINBASE));
    al.leaves.push(sload_log(5));
    let n = run.pick(2, 3);
    // the operand of SELFDESTRUCT missing
    let al2 = {
        let mut a = al.clone();
        a.leaves.push(Op::Raw("bare-selfdestruct", vec![0xff]));
        a
    };
    let setups: Vec<(MegaSpecId, u64)> = SETUPS.to_vec();
    programs(run, "programs", &al2, n, &setups, |_| false, &[Dim::Func]);
    // created and destroyed in the same transaction, by creation transactions too
    let inits: Vec<Body> = {
        let leaves = [Op::SelfDestruct(EOA), Op::SelfDestruct(NONE), Op::Sstore(1, 1), Op::SelfDestruct(CALLER)];
        let mut v = vec![];
        for a in &leaves {
            for e in [End::Stop, End::Return(3), End::Revert] {
                v.push(Body::new(vec![a.clone()], e));
                for b in &leaves {
                    v.push(Body::new(vec![a.clone(), b.clone()], e));
                }
            }
        }
        v
    };
    let k = setups.len() as u64 * 2;
    run.space(
        "creation transactions",
        "every init code of <= 2 operations over SELFDESTRUCT and SSTORE x value x all specs",
        inits.len() as u64 * k,
        |i| format!("{:?} {}", inits[(i / k) as usize], i % k),
        |i| {
            let (spec, cap) = setups[(i % k / 2) as usize];
            let w = prog_world(&Body::new(vec![], End::Stop), false);
            let s = Setup::new(spec).unlimited().salt(cap);
            let code = Image::compile_init(&inits[(i / k) as usize], false);
            compare(run, &w, &s, &tx_create(CALLER, code, (i % 2) as u128 * 9), &[Dim::Func])
        },
    );
    // at most the destroyed contract's own frame is affected, whatever gas is left
    let al = {
        let mut a = al2.clone();
        a.leaves.truncate(0);
        a.leaves.extend([Op::SelfDestruct(EOA), Op::SelfDestruct(NONE)]);
        a
    };
    gas_sweep(run, &al, run.pick(1, 2), &setups, &[Dim::Func]);
}

// ------------------------------------------------------------------ C17

/// A contract at A that CREATEs/CREATE2s from memory and stores the address in slot 1.
fn creator(two: bool, init: &[u8], len: usize) -> Vec<u8> {
    let mut a = Asm::default().mem(0, init);
    if two {
        a = a.push(77);
    }
    a.push(len as u64).push(0).push(0).op(if two { 0xf5 } else { 0xf0 }).push(1).op(0x55).op(0).build()
}
fn caller_of(op: u8) -> Vec<u8> {
    let mut a = Asm::default().push(0).push(0).push(0).push(0);
    if op == 0xf1 {
        a = a.push(0);
    }
    a.push_addr(B).push(u64::MAX).op(op).push(2).op(0x55).op(0).build()
}

#[derive(Clone, Copy, Debug)]
struct SizeCase {
    spec: MegaSpecId,
    /// how the EVM is constructed
    build: u8,
    /// how the creation is reached
    via: u8,
    code: usize,
    init: usize,
}
fn check_size(c: &SizeCase) -> CaseResult {
    // init code: RETURN `code` zero bytes, padded to `init` bytes
    let head = Asm::default().push(c.code as u64).push(1 << 12).op(0xf3).build();
    let mut w = base_world();
    let mut init = head.clone();
    init.resize(c.init, 0);
    let tx = match c.via {
        0 => tx_create(CALLER, init, 0),
        1 | 2 => {
            w.set(A, 0, 1, &creator(c.via == 2, &head, c.init));
            tx_call(CALLER, A, vec![], 0)
        }
        3 => {
            w.set(B, 0, 1, &creator(false, &head, c.init));
            w.set(A, 0, 1, &caller_of(0xf1));
            tx_call(CALLER, A, vec![], 0)
        }
        4 => {
            w.set(B, 0, 1, &creator(true, &head, c.init));
            w.set(A, 0, 1, &caller_of(0xf4));
            tx_call(CALLER, A, vec![], 0)
        }
        _ => {
            // inside the init code of another creation
            let inner = creator(false, &head, c.init);
            tx_create(CALLER, inner, 0)
        }
    };
    let tx = with_gas(tx, 1 << 40);
    let db = McDb::new(&w);
    let s = Setup::new(c.spec);
    let m = match c.build {
        0 => MegaEvm::new(mega_ctx(db.clone(), &s)).execute_transaction(tx.clone()),
        1 => {
            let ctx = MegaContext::new(db.clone(), c.spec).with_block(s.block.clone());
            MegaEvm::new(ctx).execute_transaction(tx.clone())
        }
        2 => {
            // the spec comes with the configuration
            let ctx = MegaContext::new(db.clone(), MegaSpecId::EQUIVALENCE)
                .with_cfg(CfgEnv::new_with_spec(c.spec))
                .with_block(s.block.clone())
                .with_tx_runtime_limits(mega_evm::EvmTxRuntimeLimits::from_spec(c.spec));
            MegaEvm::new(ctx).execute_transaction(tx.clone())
        }
        4 => {
            use op_revm::DefaultOp;
            let inner: op_revm::OpContext<McDb> = revm::Context::op().with_db(db.clone()).with_block(s.block.clone());
            MegaEvm::new(MegaContext::new_with_context(inner, c.spec, s.envs.envs())).execute_transaction(tx.clone())
        }
        5 => {
            // limits that are configured are kept
            let mut cfg = CfgEnv::new_with_spec(c.spec);
            cfg.limit_contract_code_size = Some(524_287);
            cfg.limit_contract_initcode_size = Some(524_288);
            MegaEvm::new(mega_ctx(db.clone(), &s).with_cfg(cfg)).execute_transaction(tx.clone())
        }
        6..=9 => {
            // only one of the limits is configured
            let mut cfg = CfgEnv::new_with_spec(c.spec);
            if c.build % 2 == 0 {
                cfg.limit_contract_code_size = Some(524_287);
            } else {
                cfg.limit_contract_initcode_size = Some(524_288);
            }
            if c.build < 8 {
                MegaEvm::new(mega_ctx(db.clone(), &s).with_cfg(cfg)).execute_transaction(tx.clone())
            } else {
                use op_revm::DefaultOp;
                let mut inner: op_revm::OpContext<McDb> = revm::Context::op().with_db(db.clone()).with_block(s.block.clone());
                inner.cfg.limit_contract_code_size = cfg.limit_contract_code_size;
                inner.cfg.limit_contract_initcode_size = cfg.limit_contract_initcode_size;
                MegaEvm::new(MegaContext::new_with_context(inner, c.spec, s.envs.envs())).execute_transaction(tx.clone())
            }
        }
        _ => {
            let f = MegaEvmFactory::new().with_external_env_factory(s.envs.clone());
            let env = EvmEnv { cfg_env: CfgEnv::new_with_spec(c.spec), block_env: s.block.clone() };
            f.create_evm(db.clone(), env).execute_transaction(tx.clone())
        }
    };
    let (mut code, mut initc) = if c.build == 5 { (524_287, 524_288) } else if rank(c.spec) == 0 { (24_576, 49_152) } else { (524_288, 548_864) };
    match c.build {
        6 | 8 => {
            code = 524_287;
            if rank(c.spec) == 0 {
                // the standard bound is twice the bound of the code
                initc = 2 * code;
            }
        }
        7 | 9 => initc = 524_288,
        _ => {}
    }
    let o = super::equiv::CfgOpts { code_size: Some(code), initcode_size: Some(initc), ..Default::default() };
    let r = super::equiv::op_run_cfg(&db, &s, &tx, &o);
    match (m, r) {
        (Err(a), Err(b)) => {
            ensure_eq!(format!("{a:?}"), b, "rejection");
            ensure!(c.via == 0 && c.init > initc, "rejected within the limits");
            Ok(Case { state: hash_of(&b), transitions: 1, traces: 1 })
        }
        (Ok(m), Ok((rr, rs))) => {
            ensure_eq!(obs(&m.result).res, obs(&rr).res, "result");
            let (a, b) = (post_world(&w, &m.state), post_world(&w, &rs));
            ensure!(a == b, "post state differs");
            // independent of the reference: the code is there exactly when it fits
            let deployed = a.accts.values().any(|x| x.code.len() == c.code && x.code.iter().all(|b| *b == 0));
            ensure_eq!(deployed, c.code <= code && c.init <= initc, "deployed");
            Ok(Case { state: hash_dbg(&(obs(&rr).res, deployed)), transitions: 1, traces: 1 })
        }
        (m, r) => bad(format!("one side rejects: {:?} / {:?}", m.map(|m| m.result), r.map(|r| r.0))),
    }
}
pub fn c17(run: &Run) {
    let codes: Vec<usize> = run.pick(
        vec![24_576, 24_577, 524_287, 524_288, 524_289],
        vec![32, 24_575, 24_576, 24_577, 49_152, 100_000, 262_144, 524_287, 524_288, 524_289, 524_320, 600_000],
    );
    let inits: Vec<usize> = vec![49_151, 49_152, 49_153, 524_288, 524_289, 548_863, 548_864, 548_865];
    let mut cases = vec![];
    for spec in ALL_SPECS {
        for build in 0..10 {
            for via in 0..6 {
                if build > 5 && !run.thorough() && via % 3 == 2 {
                    continue;
                }
                for c in &codes {
                    cases.push(SizeCase { spec, build, via, code: *c, init: 64 });
                }
                for i in &inits {
                    cases.push(SizeCase { spec, build, via, code: 32, init: *i });
                }
                cases.push(SizeCase { spec, build, via, code: 524_288, init: 548_864 });
            }
        }
    }
    run.space(
        "sizes",
        "spec x EVM construction x route to the creation x code and init-code sizes around both standard and MegaETH bounds",
        cases.len() as u64,
        |i| format!("{:?}", cases[i as usize]),
        |i| check_size(&cases[i as usize]),
    );
}

// ------------------------------------------------------------------ C18

/// Standard gas and result of a precompile, at MegaETH prices where they differ.
/// `None`: not a precompile. `Some(Err)`: the call fails. `Some(Ok(gas, output))`.
fn ref_precompile(spec: u8, a: Address, input: &[u8]) -> Option<Result<(u64, Bytes), ()>> {
    let f = op_revm::precompiles::isthmus().get(&a)?;
    let big = 1u64 << 55;
    if spec >= R_MINI && a == Address::with_last_byte(5) {
        let word = |k: usize| {
            let mut b = [0u8; 32];
            for (i, x) in b.iter_mut().enumerate() {
                *x = input.get(32 * k + i).copied().unwrap_or(0);
            }
            U256::from_be_bytes(b)
        };
        if (0..3).any(|k| word(k) > U256::from(1024)) {
            return Some(Err(()));
        }
        let out = f(input, big).map_err(|_| ());
        return Some(out.map(|o| (modexp_gas(input), o.bytes)));
    }
    let out = f(input, big).map_err(|_| ());
    Some(out.map(|o| {
        let g = if spec >= R_MINI && a == Address::with_last_byte(10) { 100_000 } else { o.gas_used };
        (g, o.bytes)
    }))
}

/// A contract that passes its calldata to `to` and returns success flag ++ return data.
fn relay(op: u8, to: Address, gas: u64) -> Vec<u8> {
    let mut a = Asm::default().ops(&[0x36, 0x5f, 0x5f, 0x37]); // CALLDATACOPY(0,0,size)
    a = a.push(0).push(0).op(0x36).push(0);
    if op == 0xf1 || op == 0xf2 {
        a = a.push(0);
    }
    a.push_addr(to)
        .push(gas)
        .op(op)
        .ops(&[0x5f, 0x53]) // MSTORE8(0, flag)
        .ops(&[0x3d, 0x5f, 0x60, 0x01, 0x3e]) // RETURNDATACOPY(1, 0, size)
        .ops(&[0x3d, 0x60, 0x01, 0x01, 0x5f, 0xf3]) // RETURN(0, size+1)
        .build()
}

fn kzg_input() -> Vec<u8> {
    // commitment and proof are the point at infinity: the zero polynomial
    let mut c = vec![0u8; 48];
    c[0] = 0xc0;
    let f = op_revm::precompiles::isthmus().get(&Address::with_last_byte(2)).unwrap();
    let h = f(&c, 1 << 30).unwrap().bytes;
    let mut v = vec![0x01];
    v.extend_from_slice(&h[1..]);
    v.extend_from_slice(&[0u8; 32]); // z
    v.extend_from_slice(&[0u8; 32]); // y
    v.extend_from_slice(&c);
    v.extend_from_slice(&c);
    v
}
fn modexp_input(bl: usize, el: usize, ml: usize, fill: u8) -> Vec<u8> {
    let mut v = vec![];
    for l in [bl, el, ml] {
        v.extend_from_slice(&U256::from(l).to_be_bytes::<32>());
    }
    v.extend_from_slice(&vec![if fill == 0 { 3 } else { fill }; bl]);
    let mut e = vec![fill; el];
    if fill == 1 && el > 0 {
        e[0] = 0x80;
    }
    v.extend_from_slice(&e);
    v.extend_from_slice(&vec![0x7f; ml]);
    v
}

fn precompile_inputs(a: u16, thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let lens: &[usize] = &[0, 1, 31, 32, 33, 63, 64, 95, 96, 97, 127, 128, 129, 159, 160, 161, 191, 192, 193, 213, 255, 256, 257, 287, 288, 383, 384, 385, 511, 512, 513];
    for l in lens {
        v.push(vec![0; *l]);
        v.push(vec![1; *l]);
    }
    match a {
        1 => {
            // a valid signature (the well-known test vector)
            let h = "456e9aea5e197a1f1af7a3e85a3212fa4049a3ba34c2289b4c860fc0b0c64ef3000000000000000000000000000000000000000000000000000000000000001c9242685bf161793cc25603c231bc2f568eb630ea16aa137d2664ac80388256084f8ae3bd7535248d0bd448298cc2e2071e56992d0774dc340c368ae950852ada";
            let b = alloy_primitives::hex::decode(h).unwrap();
            v.push(b.clone());
            let mut c = b.clone();
            c[63] = 27;
            v.push(c);
            let mut c = b;
            c[63] = 29;
            v.push(c);
        }
        5 => {
            let ls: &[usize] = if thorough { &[0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 255, 256, 1023, 1024, 1025] } else { &[0, 1, 31, 32, 33, 1024, 1025] };
            for b in ls {
                for e in ls {
                    for m in ls {
                        for fill in [0u8, 1, 0xff] {
                            if !thorough && *b == 1024 && *e == 1024 && *m == 1024 && fill != 0 {
                                continue;
                            }
                            v.push(modexp_input(*b, *e, *m, fill));
                        }
                    }
                }
            }
            // lengths that do not fit, and truncated operands
            let mut t = modexp_input(32, 32, 32, 1);
            t.truncate(100);
            v.push(t);
            for k in 0..3 {
                let mut t = modexp_input(1, 1, 1, 1);
                t[32 * k] = 1;
                v.push(t);
                let mut t = modexp_input(0, 0, 0, 1);
                t[32 * k + 20] = 1;
                v.push(t);
            }
        }
        9 => {
            for rounds in [0u32, 1, 12, 1000] {
                for f in [0u8, 1, 2] {
                    let mut t = vec![0u8; 213];
                    t[..4].copy_from_slice(&rounds.to_be_bytes());
                    t[212] = f;
                    v.push(t);
                }
            }
        }
        10 => {
            let k = kzg_input();
            v.push(k.clone());
            for (pos, val) in [(0usize, 2u8), (1, 0xaa), (95, 1), (96, 0x80), (144, 0x80)] {
                let mut t = k.clone();
                t[pos] = val;
                v.push(t);
            }
            let mut t = k.clone();
            t.push(0);
            v.push(t);
            let mut t = k;
            t.pop();
            v.push(t);
        }
        8 => {
            v.push(vec![0; 586 * 192]);
            v.push(vec![0; 587 * 192]);
        }
        0x0c => {
            v.push(vec![0; 160 * 2]);
            if thorough {
                v.push(vec![0; 160 * 3211]);
                v.push(vec![0; 160 * 3212]);
            }
        }
        0x0f => {
            v.push(vec![0; 384 * 612]);
            v.push(vec![0; 384 * 613]);
        }
        _ => {}
    }
    v
}

pub fn c18(run: &Run) {
    // every precompile must have at least one input it answers, or its price would go unchecked
    for a in (1u16..=0x11).chain([0x100]) {
        let at = Address::left_padding_from(&a.to_be_bytes());
        assert!(
            precompile_inputs(a, false).iter().any(|d| matches!(ref_precompile(R_MINI, at, d), Some(Ok(_)))),
            "no input of precompile {a:#x} succeeds"
        );
    }
    let addrs: Vec<u16> = (1..=0x12).chain([0x13, 0xff, 0x100, 0x101, 0x102]).collect();
    let mut cases: Vec<(u16, Vec<u8>)> = vec![];
    for a in &addrs {
        for i in precompile_inputs(*a, run.thorough()) {
            cases.push((*a, i));
        }
    }
    let specs: &[MegaSpecId] = if run.thorough() { &ALL_SPECS } else { &[MegaSpecId::EQUIVALENCE, MegaSpecId::MINI_REX, MegaSpecId::REX, MegaSpecId::REX4] };
    let k = specs.len() as u64;
    run.space(
        "precompile calls",
        "every address 1..0x13, 0xff..0x102 x input grid x {exact gas, one less, one more, ample} x call kind, plus direct transactions",
        cases.len() as u64 * k,
        |i| {
            let (a, d) = &cases[(i / k) as usize];
            format!("address {a:#x} input {} bytes {} {:?}", d.len(), alloy_primitives::hex::encode(&d[..d.len().min(256)]), specs[(i % k) as usize])
        },
        |i| {
            let (a, d) = &cases[(i / k) as usize];
            let spec = specs[(i % k) as usize];
            check_precompile(spec, Address::left_padding_from(&a.to_be_bytes()), d, run.thorough())
        },
    );
}
fn check_precompile(spec: MegaSpecId, a: Address, d: &[u8], thorough: bool) -> CaseResult {
    let want = ref_precompile(rank(spec), a, d);
    let s = Setup::new(spec).unlimited();
    let mut n = 0;
    let exact = match &want {
        Some(Ok((g, _))) => *g,
        _ => 50_000,
    };
    let mut gases = vec![exact, exact + 1, exact + 1_000_000];
    if exact > 0 {
        gases.push(exact - 1);
        gases.push(0);
    }
    // expensive inputs: one call kind and the two boundary amounts
    let heavy = d.len() > 20_000 || (exact > 20_000 && !thorough && want.is_some());
    if heavy {
        gases.retain(|g| *g == exact || *g + 1 == exact);
    }
    for op in [0xf1u8, 0xf2, 0xf4, 0xfa] {
        if heavy && op != 0xf1 {
            continue;
        }
        for g in &gases {
            let mut w = base_world();
            w.set(A, 0, 1, &relay(op, a, *g));
            let m = mega_run(&McDb::new(&w), &s, tx_call(CALLER, A, d.to_vec(), 0))
                .map_err(|e| Bad { what: format!("rejected: {e:?}") })?;
            n += 1;
            let Res::Success { out, .. } = obs(&m.result).res else {
                return bad(format!("relay failed: {:?}", m.result));
            };
            let exp: Vec<u8> = match &want {
                None => vec![1],
                Some(Ok((need, o))) if g >= need => [&[1u8][..], o].concat(),
                _ => vec![0],
            };
            ensure_eq!(out.to_vec(), exp, "call kind {op:#x} with gas {g} (price {exact})");
        }
    }
    // as a transaction: the price shows in the gas used; limits: exact and one less
    let w = base_world();
    let tx = tx_call(CALLER, a, d.to_vec(), 0);
    let m = mega_run(&McDb::new(&w), &s, tx.clone()).map_err(|e| Bad { what: format!("rejected: {e:?}") })?;
    n += 1;
    let o = obs(&m.result);
    match &want {
        None => ensure_eq!(o.res, Res::Success { out: Bytes::new(), created: None }, "transaction"),
        Some(Ok((g, out))) => {
            ensure_eq!(o.res, Res::Success { out: out.clone(), created: None }, "transaction");
            let extra = match rank(spec) {
                0 => 0,
                1 => 40 * calldata_tokens(d),
                _ => 40 * calldata_tokens(d) + 39_000,
            };
            let spent = 21_000 + 4 * calldata_tokens(d) + extra + g;
            ensure_eq!(o.gas_used, spent.max(floor_gas(rank(spec), &tx)), "gas used of the transaction");
            if rank(spec) >= R_MINI {
                ensure_eq!(m.compute_gas_used, 21_000 + 4 * calldata_tokens(d) + g, "compute gas");
            }
            if *g > 0 && spent > floor_gas(rank(spec), &tx) {
                for (lim, ok) in [(spent, true), (spent - 1, false)] {
                    let m = mega_run(&McDb::new(&w), &s, with_gas(tx.clone(), lim))
                        .map_err(|e| Bad { what: format!("rejected: {e:?}") })?;
                    n += 1;
                    ensure_eq!(m.result.is_success(), ok, "transaction with gas limit {lim}");
                }
            }
        }
        Some(Err(())) => ensure!(matches!(o.res, Res::Halt(_)), "transaction: {:?}", o.res),
    }
    Ok(Case { state: hash_dbg(&(o, want.map(|w| w.map(|x| x.0)))), transitions: n, traces: n })
}

// ------------------------------------------------------------------ C27

/// Transactions of a block, for accumulated accesses.
fn access_txs() -> Vec<(&'static str, MegaTransaction)> {
    let store = |k: u64| Asm::default().sstore(k, 1).op(0).build();
    let _ = store;
    vec![
        ("store slot 1", tx_call(CALLER, A, vec![1], 0)),
        ("store slot 2 and revert", tx_call(CALLER, A, vec![2], 0)),
        ("clear slot 5", tx_call(CALLER, A, vec![3], 0)),
        ("log only", tx_call(CALLER, A, vec![4], 0)),
        ("blockhash 998", tx_call(CALLER, A, vec![5], 0)),
        ("blockhash out of range", tx_call(CALLER, A, vec![6], 0)),
        ("create2 at A", tx_call(CALLER, A, vec![7], 0)),
        ("transfer to a new account", tx_call(CALLER, NONE, vec![], 1)),
        ("transfer to an old account", tx_call(CALLER, EOA, vec![], 1)),
        ("blockhash 997 in a reverted call", tx_call(CALLER, A, vec![8], 0)),
        ("out of gas in the middle", with_gas(tx_call(CALLER, A, vec![1], 0), 64_000)),
    ]
}
fn access_world() -> World {
    let blockhash = |n: u64| Op::Raw("bh", Asm::default().push(n).op(0x40).op(0x50).build());
    let call = |b: Body| Op::Call { kind: CK::Call, to: B, value: 0, gas: G::All, body: Some(b) };
    let bodies = vec![
        Body::new(vec![], End::Stop),
        Body::new(vec![Op::Sstore(1, 7)], End::Stop),
        Body::new(vec![Op::Sstore(2, 7)], End::Revert),
        Body::new(vec![Op::Sstore(5, 0)], End::Stop),
        Body::new(vec![Op::Log(1, 4)], End::Stop),
        Body::new(vec![blockhash(998)], End::Stop),
        Body::new(vec![blockhash(1000), blockhash(1001), blockhash(743)], End::Stop),
        Body::new(vec![Op::Create { two: true, value: 0, init: Body::new(vec![], End::Return(1)) }], End::Stop),
        Body::new(vec![call(Body::new(vec![blockhash(997)], End::Revert))], End::Stop),
    ];
    prog_world_bodies(&bodies)
}

pub fn c27(run: &Run) {
    // which buckets one transaction reports
    programs(run, "programs", &general(false), run.pick(2, 3), &SETUPS, |_| false, &[Dim::Buckets]);
    let shapes = tx_shapes();
    let k = SETUPS.len() as u64;
    run.space(
        "transaction shapes",
        "every transaction shape, all specs",
        shapes.len() as u64 * k,
        |i| format!("{} {:?}", shapes[(i / k) as usize].desc, SETUPS[(i % k) as usize]),
        |i| {
            let sh = &shapes[(i / k) as usize];
            let (spec, cap) = SETUPS[(i % k) as usize];
            compare(run, &sh.world, &Setup::new(spec).unlimited().salt(cap), &sh.tx, &[Dim::Buckets])
        },
    );
    extreme(run, &[Dim::Buckets]);
    // sequences on one EVM, with a new block in between
    let txs = access_txs();
    let len = run.pick(4, 5);
    let t = txs.len() as u64;
    let specs: &[MegaSpecId] = run.pick(&[MegaSpecId::EQUIVALENCE, MegaSpecId::MINI_REX, MegaSpecId::REX2, MegaSpecId::REX4], &ALL_SPECS);
    let ks = specs.len() as u64;
    // the position of the block change (0: none) and the way it is done
    let per = t.pow(len) * (len as u64) * HOWS;
    let w0 = access_world();
    let dec = |i: u64| {
        let spec = specs[(i / per) as usize];
        let i = i % per;
        let how = i % HOWS;
        let cut = i / HOWS % len as u64;
        let mut i = i / HOWS / len as u64;
        let mut seq = vec![];
        for _ in 0..len {
            seq.push((i % t) as usize);
            i /= t;
        }
        (spec, how, cut, seq)
    };
    run.space(
        "sequences",
        &format!("all sequences of {len} transactions over {t} kinds x every position of a block change x four ways of changing the block"),
        per * ks,
        |i| {
            let (spec, how, cut, seq) = dec(i);
            format!("{spec:?} cut {cut} via {} {:?}", ["with_block", "set_block", "set_block to an earlier block", "set_block to another block of the same number"][how as usize], seq.iter().map(|x| txs[*x].0).collect::<Vec<_>>())
        },
        |i| {
            let (spec, how, cut, seq) = dec(i);
            check_accesses(&w0, spec, how, cut as usize, &seq.iter().map(|x| txs[*x].1.clone()).collect::<Vec<_>>())
        },
    );
}

/// Ways of changing the block.
const HOWS: u64 = 4;

fn check_accesses(w0: &World, spec: MegaSpecId, how: u64, cut: usize, seq: &[MegaTransaction]) -> CaseResult {
    use revm::{database::State, DatabaseCommit, ExecuteEvm};
    let mut s = Setup::new(spec).unlimited().salt(512);
    let db = McDb::new(w0);
    let mk_state = || State::builder().with_database(db.clone()).build();
    let ctx = MegaContext::new(mk_state(), spec)
        .with_external_envs(s.envs.envs())
        .with_cfg(CfgEnv::new_with_spec(spec))
        .with_block(s.block.clone())
        .with_tx_runtime_limits(s.limits.unwrap());
    let mut evm = MegaEvm::new(ctx);
    let mut w = w0.clone();
    let mut want: BTreeSet<u32> = BTreeSet::new();
    let mut hashes: BTreeMap<u64, B256> = BTreeMap::new();
    for (j, tx) in seq.iter().enumerate() {
        if cut > 0 && j == cut {
            ensure_eq!(evm.get_accessed_block_hashes(), hashes, "block hashes at the end of the block");
            match how {
                2 => s.block.number -= U256::from(1),
                3 => {}
                _ => s.block.number += U256::from(1),
            }
            s.block.timestamp += U256::from(1);
            if how == 0 {
                let mut ctx = evm.into_inner().ctx;
                ctx.journaled_state.database.block_hashes.clear();
                evm = MegaEvm::new(ctx.with_block(s.block.clone()));
            } else {
                evm.ctx.journaled_state.database.block_hashes.clear();
                evm.set_block(s.block.clone());
            }
            want.clear();
            hashes.clear();
            s.envs.salt.lookups.borrow_mut().clear();
            ensure!(evm.get_accessed_bucket_ids().is_empty(), "buckets reported at the start of a block");
        }
        let mut tx = tx.clone();
        tx.base.nonce = w.nonce(CALLER);
        let cur = McDb::new(&w);
        let r = ref_run(&cur, &s, &tx, IMPL);
        let n = s.block.number.to::<u64>();
        for h in cur.block_hash_reads.borrow().iter() {
            ensure!(*h < n && *h + 256 >= n, "reference reads a hash out of range");
            hashes.insert(*h, block_hash_of(*h));
        }
        if rank(spec) >= R_MINI {
            want.extend(&r.t.buckets);
        }
        let m = evm.execute_transaction(tx.clone()).map_err(|e| Bad { what: format!("tx {j} rejected: {e:?}") })?;
        w.commit(&m.state);
        evm.ctx.journaled_state.database.commit(m.state);
        let got: BTreeSet<u32> = evm.get_accessed_bucket_ids().into_iter().collect();
        ensure_eq!(got, want, "buckets after transaction {j}");
        let got2: BTreeSet<u32> = evm.ctx.accessed_bucket_ids().into_iter().collect();
        ensure_eq!(got2, want, "buckets from the context after transaction {j}");
        ensure_eq!(evm.get_accessed_block_hashes(), hashes, "block hashes after transaction {j}");
        let l = s.envs.salt.lookups.borrow().clone();
        let set: BTreeSet<u32> = l.iter().copied().collect();
        ensure_eq!(l.len(), set.len(), "a capacity was asked twice in a block: {l:?}");
        ensure_eq!(set, want, "capacities asked");
    }
    Ok(Case { state: hash_dbg(&(want, hashes)), transitions: seq.len() as u64, traces: seq.len() as u64 })
}
#[allow(unused)]
fn unused() {
    let _ = (keccak256([]), TxKind::Create);
}
