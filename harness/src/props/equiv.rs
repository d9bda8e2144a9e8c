//! C01: EQUIVALENCE against plain op-revm.  C29: fees.
use super::exec::*;
use crate::{common::*, ensure, ensure_eq, prog::*, reft::*, runner::*};
use alloy_primitives::{address, Address, Bytes, B256, U256};
use mega_evm::{EvmTxRuntimeLimits, MegaEvm, MegaSpecId, MegaTransaction};
use op_revm::{DefaultOp, L1BlockInfo, OpBuilder, OpContext, OpSpecId};
use revm::{
    context::{BlockEnv, CfgEnv, TxEnv},
    primitives::TxKind,
    ExecuteEvm,
};
use std::collections::BTreeMap;

pub const L1_BLOCK: Address = address!("4200000000000000000000000000000000000015");
pub const L1_VAULT: Address = address!("420000000000000000000000000000000000001A");
pub const BASE_VAULT: Address = address!("4200000000000000000000000000000000000019");
pub const OPERATOR_VAULT: Address = address!("420000000000000000000000000000000000001B");

/// Stores L1 fee parameters the way the L1 block contract does.
pub fn set_l1(w: &mut World, l1_base: u64, blob_base: u64, scalars: (u32, u32), op: (u32, u64)) {
    let a = w.set(L1_BLOCK, 0, 1, &[0]);
    a.storage.insert(U256::from(1), U256::from(l1_base));
    a.storage.insert(U256::from(7), U256::from(blob_base));
    let mut s = [0u8; 32];
    s[16..20].copy_from_slice(&scalars.0.to_be_bytes());
    s[20..24].copy_from_slice(&scalars.1.to_be_bytes());
    a.storage.insert(U256::from(3), U256::from_be_bytes(s));
    let mut s = [0u8; 32];
    s[20..24].copy_from_slice(&op.0.to_be_bytes());
    s[24..32].copy_from_slice(&op.1.to_be_bytes());
    a.storage.insert(U256::from(8), U256::from_be_bytes(s));
    a.storage.retain(|_, v| !v.is_zero());
}

pub const L1_CFGS: [(u64, u64, (u32, u32), (u32, u64)); 4] = [
    (0, 0, (0, 0), (0, 0)),
    (1_000_000_007, 13, (1368, 810_949), (0, 0)),
    (0, 0, (0, 0), (2_500_000, 777)),
    (1_000_000_007, 1_000_003, (1368, 810_949), (1_234_567, 4_242)),
];

/// Settings of the configuration that both sides understand.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct CfgOpts {
    pub no_chain_check: bool,
    pub no_nonce_check: bool,
    pub no_balance_check: bool,
    pub no_block_gas_limit: bool,
    pub no_base_fee: bool,
    pub no_3607: bool,
    pub no_3541: bool,
    pub code_size: Option<usize>,
    pub initcode_size: Option<usize>,
    pub gas_cap: Option<u64>,
    pub memory_limit: Option<u64>,
}
pub fn apply_cfg<S>(c: &mut CfgEnv<S>, o: &CfgOpts) {
    c.tx_chain_id_check = !o.no_chain_check;
    c.disable_nonce_check = o.no_nonce_check;
    c.disable_balance_check = o.no_balance_check;
    c.disable_block_gas_limit = o.no_block_gas_limit;
    c.disable_base_fee = o.no_base_fee;
    c.disable_eip3607 = o.no_3607;
    c.disable_eip3541 = o.no_3541;
    if o.code_size.is_some() {
        c.limit_contract_code_size = o.code_size;
    }
    if o.initcode_size.is_some() {
        c.limit_contract_initcode_size = o.initcode_size;
    }
    if o.gas_cap.is_some() {
        c.tx_gas_limit_cap = o.gas_cap;
    }
    if let Some(m) = o.memory_limit {
        c.memory_limit = m;
    }
}

type OpRes = Result<(revm::context::result::ExecutionResult<op_revm::OpHaltReason>, revm::state::EvmState), String>;

pub fn op_run_cfg(db: &McDb, s: &Setup, tx: &MegaTransaction, o: &CfgOpts) -> OpRes {
    let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
    cfg.chain_id = s.chain_id;
    apply_cfg(&mut cfg, o);
    let ctx: OpContext<McDb> = revm::Context::op()
        .with_db(db.clone())
        .with_cfg(cfg)
        .with_block(s.block.clone())
        .with_chain(s.l1.clone());
    let mut evm = ctx.build_op();
    match evm.transact(tx.clone()) {
        Ok(x) => Ok((x.result, x.state)),
        Err(e) => Err(format!("{e:?}")),
    }
}

/// One transaction under EQUIVALENCE against op-revm: everything observable is equal.
pub fn equiv_cfg(w: &World, s: &Setup, tx: &MegaTransaction, o: &CfgOpts) -> CaseResult {
    let db = McDb::new(w);
    let r = op_run_cfg(&db, s, tx, o);
    let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(s.spec);
    cfg.chain_id = s.chain_id;
    apply_cfg(&mut cfg, o);
    let mut evm = MegaEvm::new(mega_ctx(db, s).with_cfg(cfg));
    let m = evm.execute_transaction(tx.clone());
    match (r, m) {
        (Err(a), Err(b)) => {
            ensure_eq!(format!("{b:?}"), a, "error");
            Ok(Case { state: hash_of(&a), transitions: 1, traces: 1 })
        }
        (Ok((rr, rs)), Ok(m)) => {
            let (a, b) = (obs(&m.result), obs(&rr));
            ensure_eq!(a, b, "result");
            ensure_eq!(post_world(w, &m.state), post_world(w, &rs), "post state");
            ensure!(
                s.envs.salt.lookups.borrow().is_empty() && s.envs.oracle.trace.borrow().is_empty(),
                "an external service was asked under EQUIVALENCE"
            );
            Ok(Case { state: hash_dbg(&a), transitions: 1, traces: 1 })
        }
        (r, m) => bad(format!(
            "one side rejects: implementation {:?}, reference {:?}",
            m.map(|m| m.result),
            r.map(|r| r.0)
        )),
    }
}
fn equiv(w: &World, s: &Setup, tx: &MegaTransaction) -> CaseResult {
    equiv_cfg(w, s, tx, &CfgOpts::default())
}

/// Settings under which EQUIVALENCE must not show any MegaETH rule.
fn eq_setup(v: u64) -> Setup {
    let mut s = Setup::new(MegaSpecId::EQUIVALENCE).salt(1024);
    let mut vals = BTreeMap::new();
    vals.insert(U256::from(5), U256::from(99));
    vals.insert(U256::from(1), U256::from(98));
    s.envs.oracle.values = std::sync::Arc::new(vals);
    if v == 1 {
        // limits configured explicitly are still not MegaETH semantics of this spec
        let mut l = EvmTxRuntimeLimits::no_limits();
        l.tx_compute_gas_limit = 1;
        l.tx_data_size_limit = 1;
        l.tx_kv_updates_limit = 1;
        l.tx_state_growth_limit = 1;
        l.block_env_access_compute_gas_limit = 1;
        l.oracle_access_compute_gas_limit = 1;
        s.limits = Some(l);
    }
    s
}

/// everything MegaETH treats specially
fn eq_alphabet() -> Alphabet {
    let call = |kind, to, value, gas| Op::Call { kind, to, value, gas, body: None };
    let mut al = general(true);
    al.leaves.extend([
        Op::Raw("timestamp", vec![0x42, 0x50]),
        Op::Raw("coinbase", vec![0x41, 0x31, 0x50]),
        Op::Raw("blockhash", vec![0x61, 0x03, 0xe0, 0x40, 0x50]),
        gas_log(),
        call(CK::Call, ORACLE, 0, G::All),
        call(CK::Call, KEYLESS, 0, G::All),
        call(CK::Call, Address::with_last_byte(5), 0, G::All),
    ]);
    al
}
fn eq_world(p: &Body) -> World {
    let mut w = prog_world(p, false);
    // the oracle contract reads a slot twice and logs it
    let code = Asm::default()
        .ops(&[0x60, 0x05, 0x54, 0x50, 0x60, 0x05, 0x54, 0x5f, 0x5f, 0xa1, 0x00])
        .build();
    w.set(ORACLE, 0, 1, &code).storage.insert(U256::from(5), U256::from(55));
    w.set(KEYLESS, 0, 1, &Asm::default().sstore(1, 1).op(0).build());
    w.set(SYSTEM_ADDR, ETHER, 0, &[]);
    w
}

/// Operations that cost the same in every spec.
fn same_cost_alphabet() -> Alphabet {
    let call = |kind| Op::Call { kind, to: B, value: 0, gas: G::Lim(30_000), body: None };
    Alphabet {
        leaves: vec![
            Op::Raw("store the gas left", Asm::default().op(0x5a).push(5).op(0x55).build()),
            Op::Raw("store the gas price", Asm::default().op(0x3a).push(0x7777).op(0x01).push(5).op(0x55).build()),
            Op::Raw("store the origin", Asm::default().op(0x32).push(5).op(0x55).build()),
            Op::Raw("store the caller", Asm::default().op(0x33).push(5).op(0x55).build()),
            Op::Raw("store the nonce and balance of the caller", Asm::default().op(0x33).op(0x31).push(9).op(0x01).push(5).op(0x55).build()),
            Op::Sstore(5, 0),
            Op::Sload(5),
            Op::Raw("keccak+mem", vec![0x61, 0x01, 0x00, 0x5f, 0x20, 0x50]),
            Op::Raw("transient", Asm::default().push(3).push(9).op(0x5d).push(9).op(0x5c).op(0x50).build()),
            Op::Raw("memory for 31 million gas", Asm::default().push(1).push(4_000_000).op(0x52).build()),
        ],
        calls: vec![call(CK::Call), call(CK::Delegate), call(CK::Static), call(CK::CallCode)],
        creates: vec![],
        call_ends: vec![End::Stop, End::Revert, End::Invalid],
        init_ends: vec![],
        top_ends: vec![End::Stop, End::Revert, End::Invalid],
        max_depth: 1,
    }
}
/// System calls: 30 million gas, nothing paid, nobody's nonce changed, as op-revm does them.
pub fn system_calls(run: &Run, specs: &'static [MegaSpecId]) {
    let same = specs.len() == 1;
    let al = if same { eq_alphabet() } else { same_cost_alphabet() };
    let n = if same { 2 } else { run.pick(2, 4) };
    let k = specs.len() as u64 * 3;
    let callers = [CALLER, revm::handler::SYSTEM_ADDRESS, COINBASE];
    run.space(
        "system calls",
        &format!("all program trees with <= {n} nodes, run by system calls of three callers, {specs:?}, compared with op-revm"),
        al.total(n) * k,
        |i| format!("{:?} {:?} {}", al.at(n, i / k), specs[(i % k / 3) as usize], callers[(i % 3) as usize]),
        |i| {
            let spec = specs[(i % k / 3) as usize];
            let caller = callers[(i % 3) as usize];
            let w = eq_world(&al.at(n, i / k));
            let s = if same { eq_setup(i % 2) } else { Setup::new(spec).unlimited() };
            let db = McDb::new(&w);
            let mut evm = mega_evm::MegaEvm::new(mega_ctx(db.clone(), &s));
            let data = alloy_primitives::Bytes::from(vec![0u8; 33]);
            let m = alloy_evm::Evm::transact_system_call(&mut evm, caller, A, data.clone()).map_err(|e| Bad { what: format!("{e:?}") })?;
            let (r, st) = op_system_call(&db, &s, caller, A, data).map_err(|e| Bad { what: format!("reference: {e}") })?;
            ensure_eq!(obs(&m.result), obs(&r), "result of the system call");
            ensure_eq!(post_world(&w, &m.state), post_world(&w, &st), "state after the system call");
            Ok(Case { state: hash_dbg(&obs(&r)), transitions: 2, traces: 1 })
        },
    );
}

pub fn c01(run: &Run) {
    system_calls(run, &[MegaSpecId::EQUIVALENCE]);
    let al = eq_alphabet();
    let n = run.pick(2, 3);
    let k = 2;
    run.space(
        "programs",
        &format!("all program trees with <= {n} nodes over {} leaves; default and explicit limits", al.leaves.len()),
        al.total(n) * k,
        |i| format!("{:?} limits {}", al.at(n, i / k), i % k),
        |i| equiv(&eq_world(&al.at(n, i / k)), &eq_setup(i % k), &tx_call(CALLER, A, vec![], 0)),
    );
    for (name, al, n) in [
        ("deep storage programs", storage_deep(), run.pick(4, 5)),
        ("deep account programs", account_deep(), run.pick(4, 5)),
    ] {
        run.space(
            name,
            &format!("all program trees with <= {n} nodes"),
            al.total(n),
            |i| format!("{:?}", al.at(n, i)),
            |i| equiv(&prog_world(&al.at(n, i), false), &eq_setup(0), &tx_call(CALLER, A, vec![], 0)),
        );
    }
    let mut al = super::limits::limit_alphabet();
    al.leaves.push(gas_log());
    let n = 2;
    run.space(
        "programs x gas limits",
        "all program trees with <= 2 nodes x gas limits around every charge",
        al.total(n) * 2,
        |i| format!("{:?} limits {}", al.at(n, i / 2), i % 2),
        |i| {
            let w = prog_world(&al.at(n, i / 2), false);
            let s = eq_setup(i % 2);
            let tx = tx_call(CALLER, A, vec![], 0);
            let r = ref_run(&McDb::new(&w), &s, &tx, DOC);
            let full = tx.base.gas_limit - r.t.final_gas;
            let mut c = Case::default();
            for g in gas_thresholds(&r.t, full) {
                let x = equiv(&w, &s, &with_gas(tx.clone(), g))
                    .map_err(|b| Bad { what: format!("gas limit {g}: {}", b.what) })?;
                c.state = c.state.wrapping_mul(31).wrapping_add(x.state);
                c.transitions += x.transitions;
                c.traces += 1;
            }
            Ok(c)
        },
    );
    let shapes = tx_shapes();
    run.space(
        "transaction shapes",
        "every transaction shape from an ordinary and from the system sender x gas limits {ample, intrinsic, +-1}",
        shapes.len() as u64 * 4,
        |i| format!("{} variant {}", shapes[(i / 4) as usize].desc, i % 4),
        |i| {
            let sh = &shapes[(i / 4) as usize];
            let (sys, lim) = (i % 2, i / 2 % 2);
            let mut w = sh.world.clone();
            w.set(SYSTEM_ADDR, 1_000_000 * ETHER, 0, &[]);
            let mut tx = sh.tx.clone();
            if sys == 1 {
                tx.base.caller = SYSTEM_ADDR;
            }
            let s = eq_setup(lim);
            let mut c = equiv(&w, &s, &tx)?;
            let r = ref_run(&McDb::new(&w), &s, &tx, DOC);
            for g in gas_thresholds(&r.t, tx.base.gas_limit - r.t.final_gas) {
                let x = equiv(&w, &s, &with_gas(tx.clone(), g))
                    .map_err(|b| Bad { what: format!("gas limit {g}: {}", b.what) })?;
                c.transitions += x.transitions;
                c.traces += x.traces;
            }
            Ok(c)
        },
    );
    let ops = opcode_programs();
    run.space(
        "single opcodes",
        "every opcode byte x 4 operand vectors",
        ops.len() as u64,
        |i| ops[i as usize].0.clone(),
        |i| {
            let mut w = base_world();
            w.set(A, 1000, 1, &ops[i as usize].1).storage.insert(U256::from(5), U256::from(55));
            equiv(&w, &eq_setup(0), &tx_call(CALLER, A, vec![1, 2, 3], 0))
        },
    );
    let ex = extremes(run.thorough());
    run.space(
        "extremes",
        "deep chains, long repetitions and large numbers",
        ex.len() as u64,
        |i| ex[i as usize].desc.clone(),
        |i| equiv(&ex[i as usize].world, &eq_setup(i % 2), &ex[i as usize].tx),
    );
    let grid = fee_grid(run);
    run.space(
        "fees",
        "every fee setting of the fee grid",
        grid.len() as u64,
        |i| format!("{:?}", grid[i as usize]),
        |i| {
            let (w, mut s, tx) = grid[i as usize].build();
            s.spec = MegaSpecId::EQUIVALENCE;
            s.limits = None;
            equiv(&w, &s, &tx)
        },
    );
    let inv = invalid_txs();
    run.space(
        "rejected and borderline transactions",
        "every defect of the list x every configuration switch",
        inv.len() as u64 * CFG_SWITCHES,
        |i| format!("{} {:?}", inv[(i / CFG_SWITCHES) as usize].0, cfg_switch(i % CFG_SWITCHES)),
        |i| {
            let (_, w, b, tx) = &inv[(i / CFG_SWITCHES) as usize];
            let mut s = Setup::new(MegaSpecId::EQUIVALENCE);
            s.block = b.clone();
            equiv_cfg(w, &s, tx, &cfg_switch(i % CFG_SWITCHES))
        },
    );
}

pub const CFG_SWITCHES: u64 = 12;
pub fn cfg_switch(i: u64) -> CfgOpts {
    let d = CfgOpts::default();
    match i {
        0 => d,
        1 => CfgOpts { no_chain_check: true, ..d },
        2 => CfgOpts { no_nonce_check: true, ..d },
        3 => CfgOpts { no_balance_check: true, ..d },
        4 => CfgOpts { no_block_gas_limit: true, ..d },
        5 => CfgOpts { no_base_fee: true, ..d },
        6 => CfgOpts { no_3607: true, ..d },
        7 => CfgOpts { no_3541: true, ..d },
        8 => CfgOpts { code_size: Some(10), ..d },
        9 => CfgOpts { initcode_size: Some(20), ..d },
        10 => CfgOpts { gas_cap: Some(100_000), ..d },
        _ => CfgOpts { memory_limit: Some(4096), ..d },
    }
}

/// Transactions with one defect each (and their just-valid neighbours).
pub fn invalid_txs() -> Vec<(String, World, BlockEnv, MegaTransaction)> {
    let body = Body::new(vec![Op::Sstore(1, 7), Op::Log(1, 5)], End::Stop);
    let mut w0 = prog_world(&body, false);
    w0.accts.get_mut(&CALLER).unwrap().nonce = 5;
    let base = || {
        let mut t = nonced(with_gas(tx_call(CALLER, A, vec![1, 0, 2], 3), 3_000_000), 5);
        t.base.gas_price = 10;
        t.base.chain_id = Some(1);
        t
    };
    let mut s0 = Setup::new(MegaSpecId::EQUIVALENCE).unlimited();
    s0.block.basefee = 7;
    s0.block.gas_limit = 4_000_000;
    let mut out: Vec<(String, World, BlockEnv, MegaTransaction)> = vec![];
    {
        let mut add = |n: &str, f: &dyn Fn(&mut World, &mut Setup, &mut MegaTransaction)| {
            let (mut w, mut s, mut t) = (w0.clone(), s0.clone(), base());
            f(&mut w, &mut s, &mut t);
            out.push((n.into(), w, s.block.clone(), t));
        };
        add("valid", &|_, _, _| {});
        add("nonce low", &|_, _, t| t.base.nonce = 4);
        add("nonce high", &|_, _, t| t.base.nonce = 6);
        add("nonce max", &|w, _, t| {
            w.accts.get_mut(&CALLER).unwrap().nonce = u64::MAX;
            t.base.nonce = u64::MAX;
        });
        add("chain id", &|_, _, t| t.base.chain_id = Some(2));
        add("no chain id", &|_, _, t| t.base.chain_id = None);
        for d in [0i64, -1, 1] {
            add(&format!("balance {d}"), &move |w, _, t| {
                let need = 3_000_000u128 * 10 + 3;
                w.accts.get_mut(&CALLER).unwrap().balance = U256::from((need as i128 + d as i128) as u128);
                let _ = t;
            });
            add(&format!("block gas {d}"), &move |_, _, t| t.base.gas_limit = (4_000_000 + d) as u64);
            add(&format!("base fee {d}"), &move |_, _, t| t.base.gas_price = (7 + d) as u128);
            add(&format!("cap {d}"), &move |_, s, t| {
                s.block.gas_limit = u64::MAX;
                t.base.gas_limit = (100_000 + d) as u64;
            });
            add(&format!("priority {d}"), &move |_, _, t| {
                t.base.tx_type = 2;
                t.base.gas_priority_fee = Some((10 + d) as u128);
            });
            add(&format!("intrinsic {d}"), &move |_, _, t| {
                t.base.gas_limit = (21_000 + 36 + d) as u64;
            });
            add(&format!("floor {d}"), &move |_, _, t| {
                t.base.gas_limit = (21_000 + 90 + d) as u64;
            });
            for (k, size) in [("initcode", 49_152i64), ("initcode-mega", 548_864)] {
                add(&format!("{k} {d}"), &move |_, s, t| {
                    s.block.gas_limit = u64::MAX;
                    t.base.kind = TxKind::Create;
                    t.base.data = Bytes::from(vec![0u8; (size + d) as usize]);
                    t.base.gas_limit = 1_000_000_000;
                    t.base.value = U256::ZERO;
                });
            }
            add(&format!("initcode cfg {d}"), &move |_, _, t| {
                t.base.kind = TxKind::Create;
                t.base.data = Bytes::from(vec![0u8; (20 + d) as usize]);
                t.base.value = U256::ZERO;
            });
            add(&format!("code cfg {d}"), &move |_, _, t| {
                t.base.kind = TxKind::Create;
                t.base.data = Asm::default().push((10 + d) as u64).push(0).op(0xf3).build().into();
                t.base.value = U256::ZERO;
            });
        }
        add("code starting with EF", &|_, _, t| {
            t.base.kind = TxKind::Create;
            t.base.data = Image::compile_init(&Body::new(vec![], End::ReturnEf(3)), false).into();
            t.base.value = U256::ZERO;
        });
        add("big memory", &|w, _, _| {
            w.accts.get_mut(&A).unwrap().code = Asm::default().push(1).push(5000).op(0x52).op(0).build().into();
        });
        add("sender has code", &|w, _, _| {
            w.accts.get_mut(&CALLER).unwrap().code = Bytes::from_static(&[0]);
        });
        add("sender has delegation", &|w, _, _| {
            w.accts.get_mut(&CALLER).unwrap().code = delegation(B).into();
        });
        add("blob tx", &|_, _, t| {
            t.base.tx_type = 3;
            t.base.max_fee_per_blob_gas = 100;
            t.base.blob_hashes = vec![B256::with_last_byte(1)];
        });
        add("blob tx versioned", &|_, _, t| {
            t.base.tx_type = 3;
            t.base.max_fee_per_blob_gas = 100;
            let mut h = B256::with_last_byte(1);
            h[0] = 1;
            t.base.blob_hashes = vec![h];
        });
        add("7702 empty", &|_, _, t| {
            t.base.tx_type = 4;
            t.base.gas_priority_fee = Some(0);
        });
        add("7702 create", &|_, _, t| {
            t.base.tx_type = 4;
            t.base.gas_priority_fee = Some(0);
            t.base.authorization_list = auths(0);
            t.base.kind = TxKind::Create;
        });
        add("unknown type", &|_, _, t| t.base.tx_type = 9);
        add("value above balance", &|w, _, t| {
            t.base.value = w.balance(CALLER) + U256::from(1);
        });
        add("huge price", &|_, _, t| t.base.gas_price = u128::MAX);
        for sys in [false, true] {
            add(&format!("deposit sys={sys}"), &move |_, _, t| {
                t.deposit.source_hash = B256::with_last_byte(1);
                t.base.tx_type = 0x7e;
                t.deposit.is_system_transaction = sys;
                t.base.gas_price = 0;
                t.enveloped_tx = None;
            });
        }
        add("deposit without balance", &|w, _, t| {
            t.deposit.source_hash = B256::with_last_byte(1);
            t.base.tx_type = 0x7e;
            t.deposit.mint = Some(1000);
            t.base.gas_price = 0;
            t.base.value = w.balance(CALLER) + U256::from(1001);
        });
        add("deposit minted value", &|w, _, t| {
            t.deposit.source_hash = B256::with_last_byte(1);
            t.base.tx_type = 0x7e;
            t.deposit.mint = Some(1000);
            t.base.gas_price = 0;
            t.base.value = w.balance(CALLER) + U256::from(1000);
        });
        add("deposit bad nonce", &|_, _, t| {
            t.deposit.source_hash = B256::with_last_byte(1);
            t.base.tx_type = 0x7e;
            t.base.nonce = 77;
            t.base.gas_price = 0;
        });
        add("deposit too little gas", &|_, _, t| {
            t.deposit.source_hash = B256::with_last_byte(1);
            t.base.tx_type = 0x7e;
            t.base.gas_limit = 20_000;
            t.base.gas_price = 0;
        });
        add("deposit create", &|_, _, t| {
            t.deposit.source_hash = B256::with_last_byte(1);
            t.base.tx_type = 0x7e;
            t.base.kind = TxKind::Create;
            t.base.gas_price = 0;
            t.base.data = Image::compile_init(&Body::new(vec![Op::Sstore(1, 1)], End::Return(4)), false).into();
        });
    }
    out
}

// ------------------------------------------------------------------ fees

/// One fee setting.
#[derive(Clone, Debug)]
pub struct FeeCase {
    pub spec: MegaSpecId,
    pub prog: usize,
    pub price: u128,
    pub prio: Option<u128>,
    pub basefee: u64,
    pub l1: usize,
    pub env: usize,
    pub value: u128,
    /// 0 none, 1 OOG gas limit, 2 compute limit, 3 data limit
    pub stop: usize,
    pub deposit: Option<u128>,
    pub caller: Address,
    pub no_beneficiary: bool,
}
pub const FEE_PROGS: usize = 9;
fn fee_prog(i: usize) -> (Option<Body>, TxKind, Vec<u8>) {
    let call = |kind, to, value| Op::Call { kind, to, value, gas: G::All, body: None };
    match i {
        0 => (Some(Body::new(vec![Op::Sstore(1, 7)], End::Stop)), TxKind::Call(A), vec![]),
        1 => (Some(Body::new(vec![Op::Sstore(1, 7)], End::Revert)), TxKind::Call(A), vec![]),
        2 => (Some(Body::new(vec![Op::Sstore(1, 7)], End::Invalid)), TxKind::Call(A), vec![]),
        // refund
        3 => (Some(Body::new(vec![Op::Sstore(5, 0)], End::Stop)), TxKind::Call(A), vec![]),
        4 => (
            Some(Body::new(vec![call(CK::Call, NONE, 5), call(CK::Call, COINBASE, 6)], End::Stop)),
            TxKind::Call(A),
            vec![],
        ),
        5 => (None, TxKind::Call(EOA), vec![7; 600]),
        6 => (None, TxKind::Create, Image::compile_init(&Body::new(vec![Op::Sstore(1, 1)], End::Return(3)), false)),
        7 => (None, TxKind::Call(COINBASE), vec![]),
        _ => (Some(Body::new(vec![Op::SelfDestruct(NONE)], End::Stop)), TxKind::Call(A), vec![]),
    }
}
impl FeeCase {
    pub fn build(&self) -> (World, Setup, MegaTransaction) {
        let (body, kind, data) = fee_prog(self.prog);
        let mut w = prog_world(&body.unwrap_or(Body::new(vec![], End::Stop)), false);
        let l = L1_CFGS[self.l1];
        set_l1(&mut w, l.0, l.1, l.2, l.3);
        w.set(COINBASE, 11, 0, &[]);
        let mut s = Setup::new(self.spec).unlimited().salt(512);
        s.block.basefee = self.basefee;
        let mut t = mk_tx(TxEnv {
            caller: self.caller,
            kind,
            data: data.into(),
            value: U256::from(self.value),
            gas_limit: 60_000_000,
            gas_price: self.price,
            gas_priority_fee: self.prio,
            tx_type: if self.prio.is_some() { 2 } else { 0 },
            chain_id: Some(1),
            ..Default::default()
        });
        t.enveloped_tx = Some(match self.env {
            0 => Bytes::new(),
            1 => Bytes::from(vec![0u8; 100]),
            _ => Bytes::from((0..400u32).map(|i| (i * 7 + i / 13) as u8).collect::<Vec<_>>()),
        });
        match self.stop {
            1 => t.base.gas_limit = if self.prog == 5 { 170_000 } else if self.prog == 6 { 100_000 } else { 66_000 },
            2 | 3 => {
                let mut lim = EvmTxRuntimeLimits::no_limits();
                if self.stop == 2 {
                    lim.tx_compute_gas_limit = 22_000;
                } else {
                    lim.tx_data_size_limit = 160;
                }
                s.limits = Some(lim);
            }
            _ => {}
        }
        if let Some(m) = self.deposit {
            t.deposit.source_hash = B256::repeat_byte(3);
            t.deposit.mint = if m == 0 { None } else { Some(m) };
            t.base.tx_type = 0x7e;
            t.base.gas_price = 0;
            t.base.gas_priority_fee = None;
            t.enveloped_tx = None;
        }
        (w, s, t)
    }
}
pub fn fee_grid(run: &Run) -> Vec<FeeCase> {
    let mut v = vec![];
    let prices: Vec<(u128, Option<u128>)> = run.pick(
        vec![(0, None), (10, None), (10, Some(2)), (10, Some(10)), (7, Some(0))],
        vec![(0, None), (5, None), (10, None), (10, Some(0)), (10, Some(2)), (10, Some(3)), (10, Some(4)), (10, Some(10)), (7, Some(0)), (1_000_000_007, Some(999))],
    );
    for spec in ALL_SPECS {
        for prog in 0..FEE_PROGS {
            for (price, prio) in &prices {
                for basefee in [0u64, 7] {
                    for l1 in 0..L1_CFGS.len() {
                        for env in 0..3 {
                            if l1 == 0 && env > 0 {
                                continue;
                            }
                            for value in [0u128, 13] {
                                for stop in 0..4 {
                                    for nb in [false, true] {
                                        if nb && (stop == 3 || env > 1) {
                                            continue;
                                        }
                                        v.push(FeeCase {
                                            spec,
                                            prog,
                                            price: *price,
                                            prio: *prio,
                                            basefee,
                                            l1,
                                            env,
                                            value,
                                            stop,
                                            deposit: None,
                                            caller: if prog == 7 && env == 1 { COINBASE } else { CALLER },
                                            no_beneficiary: nb,
                                        });
                                    }
                                }
                            }
                        }
                    }
                }
            }
            for m in [0u128, 17] {
                for stop in 0..4 {
                    for value in [0u128, 13] {
                        for l1 in [0, 3] {
                            v.push(FeeCase {
                                spec,
                                prog,
                                price: 0,
                                prio: None,
                                basefee: 7,
                                l1,
                                env: 0,
                                value,
                                stop,
                                deposit: Some(m),
                                caller: CALLER,
                                no_beneficiary: false,
                            });
                        }
                    }
                }
            }
        }
    }
    v
}

/// The same transaction with all fees switched off tells what the execution itself does; on top
/// of it the fees must be exactly the documented ones.
fn check_fees(w: &World, s: &Setup, t: &MegaTransaction, l1: usize, nb: bool) -> CaseResult {
    let caller = t.base.caller;
    let deposit = !t.deposit.source_hash.is_zero();
    let run1 = |w: &World, s: &Setup, t: &MegaTransaction, nb: bool| {
        let mut ctx = mega_ctx(McDb::new(w), s);
        if nb {
            ctx.disable_beneficiary();
        }
        MegaEvm::new(ctx).execute_transaction(t.clone())
    };
    let basefee = s.block.basefee as u128;
    let m = match run1(w, s, t, nb) {
        Ok(m) => m,
        Err(e) => {
            // only the base fee can make these transactions invalid
            let e = format!("{e:?}");
            ensure!(
                t.base.gas_price < basefee && e.contains("GasPriceLessThanBasefee") ||
                    e.contains("CallGasCostMoreThanGasLimit") || e.contains("GasFloorMoreThanGasLimit"),
                "rejected: {e}"
            );
            return Ok(Case { state: hash_of(&e), transitions: 1, traces: 1 });
        }
    };
    ensure!(deposit || t.base.gas_price >= basefee, "accepted below the base fee");
    let o = obs(&m.result);
    let got = post_world(w, &m.state);
    // fee-free twin: no prices, no L1 parameters, the same gas limit
    let mut w0 = w.clone();
    set_l1(&mut w0, 0, 0, (0, 0), (0, 0));
    let (mut s0, mut t0) = (s.clone(), t.clone());
    s0.block.basefee = 0;
    t0.base.gas_price = 0;
    if t0.base.gas_priority_fee.is_some() {
        t0.base.gas_priority_fee = Some(0);
    }
    let m0 = run1(&w0, &s0, &t0, true)
        .map_err(|e| Bad { what: format!("fee-free twin rejected: {e:?}") })?;
    let o0 = obs(&m0.result);
    ensure_eq!(o, o0, "outcome with and without fees");
    let mut want = post_world(&w0, &m0.state);
    // put the L1 parameters back
    want.accts.insert(L1_BLOCK, w.acct(L1_BLOCK));
    let used = U256::from(o.gas_used);
    if !deposit {
        let l = L1_CFGS[l1];
        let env = t.enveloped_tx.clone().unwrap();
        let price = match t.base.gas_priority_fee {
            Some(p) => t.base.gas_price.min(basefee + p),
            None => t.base.gas_price,
        };
        let mut db = McDb::new(w);
        let mut info = L1BlockInfo::try_fetch(&mut db, s.block.number, OpSpecId::ISTHMUS).unwrap();
        let l1_fee = info.calculate_tx_l1_cost(&env, OpSpecId::ISTHMUS);
        let operator = used * U256::from(l.3 .0) / U256::from(1_000_000u64) + U256::from(l.3 .1);
        let base = used * U256::from(basefee);
        let tip = used * U256::from(price - basefee);
        let mut credit = |a: Address, v: U256| {
            if !v.is_zero() {
                want.accts.entry(a).or_default().balance += v;
            }
        };
        if !nb {
            credit(s.block.beneficiary, tip);
            credit(BASE_VAULT, base);
            credit(L1_VAULT, l1_fee);
            credit(OPERATOR_VAULT, operator);
        }
        let total = l1_fee + operator + base + tip;
        want.accts.get_mut(&caller).unwrap().balance -= total;
    }
    for a in got.accts.keys().chain(want.accts.keys()) {
        ensure_eq!(got.acct(*a), want.acct(*a), "account {a}");
    }
    // conservation, from the outcome alone
    let mint = if deposit { U256::from(t.deposit.mint.unwrap_or(0)) } else { U256::ZERO };
    if !nb {
        ensure_eq!(got.total_balance(), w.total_balance() + mint, "total balance");
    }
    Ok(Case { state: hash_dbg(&(o, got.balance(caller))), transitions: 2, traces: 2 })
}

pub fn c29(run: &Run) {
    let grid = fee_grid(run);
    run.space(
        "fee grid",
        "spec x program x price x priority fee x base fee x L1/operator parameters x envelope x value x stop reason x beneficiary switch, and deposits",
        grid.len() as u64,
        |i| format!("{:?}", grid[i as usize]),
        |i| {
            let c = &grid[i as usize];
            let (mut w, s, t) = c.build();
            if c.caller == COINBASE {
                w.set(COINBASE, ETHER, 0, &[]);
            }
            check_fees(&w, &s, &t, c.l1, c.no_beneficiary)
        },
    );
    // every program, stopped at every point by a limit or by the gas limit
    let al = super::limits::limit_alphabet();
    let n = 2;
    let specs: &[MegaSpecId] = run.pick(&[MegaSpecId::MINI_REX, MegaSpecId::REX4], &REX_SPECS);
    let k = specs.len() as u64;
    run.space(
        "programs x stops",
        "all program trees with <= 2 nodes x compute and data limits and gas limits around every charge, with all fees on",
        al.total(n) * k,
        |i| format!("{:?} {:?}", al.at(n, i / k), specs[(i % k) as usize]),
        |i| {
            let spec = specs[(i % k) as usize];
            let mut w = prog_world(&al.at(n, i / k), false);
            let l = L1_CFGS[3];
            set_l1(&mut w, l.0, l.1, l.2, l.3);
            w.set(COINBASE, 11, 0, &[]);
            let mut s = Setup::new(spec).unlimited().salt(512);
            let plain = tx_call(CALLER, A, vec![], 3);
            let r = ref_run(&McDb::new(&w), &s, &plain, IMPL);
            let full = plain.base.gas_limit - r.t.final_gas;
            s.block.basefee = 7;
            let mut tx = with_gas(plain, full + 1_000_000);
            tx.base.gas_price = 12;
            tx.base.tx_type = 2;
            tx.base.gas_priority_fee = Some(2);
            tx.enveloped_tx = Some(Bytes::from(vec![5u8; 90]));
            let mut c = check_fees(&w, &s, &tx, 3, false)?;
            let mut go = |s: &Setup, tx: &MegaTransaction| -> Result<(), Bad> {
                let x = check_fees(&w, s, tx, 3, false)?;
                c.transitions += x.transitions;
                c.traces += x.traces;
                Ok(())
            };
            for g in gas_thresholds(&r.t, full) {
                go(&s, &with_gas(tx.clone(), g)).map_err(|b| Bad { what: format!("gas limit {g}: {}", b.what) })?;
            }
            for th in super::limits::thresholds(&r.t, |e| e.compute as i128) {
                let mut lim = EvmTxRuntimeLimits::no_limits();
                lim.tx_compute_gas_limit = th;
                let mut s2 = s.clone();
                s2.limits = Some(lim);
                go(&s2, &tx).map_err(|b| Bad { what: format!("compute limit {th}: {}", b.what) })?;
            }
            for th in super::limits::thresholds(&r.t, |e| e.data as i128) {
                let mut lim = EvmTxRuntimeLimits::no_limits();
                lim.tx_data_size_limit = th;
                let mut s2 = s.clone();
                s2.limits = Some(lim);
                go(&s2, &tx).map_err(|b| Bad { what: format!("data limit {th}: {}", b.what) })?;
            }
            Ok(c)
        },
    );
}
