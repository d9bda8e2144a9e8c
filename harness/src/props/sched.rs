//! Hardfork schedules, specs and the limits they come with (C25).
use super::{block::digits, limits::reason_text};
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use alloy_evm::{Evm, EvmEnv, EvmFactory};
use alloy_hardforks::{EthereumHardfork, EthereumHardforks, ForkCondition, Hardfork};
use alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use alloy_op_hardforks::{OpHardfork, OpHardforks};
use alloy_primitives::{Bytes, B256, U256};
use mega_evm::{
    BlockLimits, EvmTxRuntimeLimits, IntoMegaethCfgEnv, IntoOpCfgEnv, MegaBlockExecutionCtx, MegaBlockExecutorFactory, MegaContext, MegaEvm,
    MegaEvmFactory, MegaHaltReason, MegaHardfork, MegaHardforkConfig, MegaHardforks, MegaSpecId, MegaTransaction, OpSpecId,
};
use revm::{
    context::{result::ExecutionResult, CfgEnv},
    database::State,
    inspector::NoOpInspector,
};
use std::{str::FromStr, sync::Arc};

/// In order of age, with the spec each one introduces.
const FORKS: [(MegaHardfork, &str, MegaSpecId); 8] = [
    (MegaHardfork::MiniRex, "MiniRex", MegaSpecId::MINI_REX),
    (MegaHardfork::MiniRex1, "MiniRex1", MegaSpecId::EQUIVALENCE),
    (MegaHardfork::MiniRex2, "MiniRex2", MegaSpecId::MINI_REX),
    (MegaHardfork::Rex, "Rex", MegaSpecId::REX),
    (MegaHardfork::Rex1, "Rex1", MegaSpecId::REX1),
    (MegaHardfork::Rex2, "Rex2", MegaSpecId::REX2),
    (MegaHardfork::Rex3, "Rex3", MegaSpecId::REX3),
    (MegaHardfork::Rex4, "Rex4", MegaSpecId::REX4),
];
const NAMES: [(MegaSpecId, &str); 7] = [
    (MegaSpecId::EQUIVALENCE, "Equivalence"),
    (MegaSpecId::MINI_REX, "MiniRex"),
    (MegaSpecId::REX, "Rex"),
    (MegaSpecId::REX1, "Rex1"),
    (MegaSpecId::REX2, "Rex2"),
    (MegaSpecId::REX3, "Rex3"),
    (MegaSpecId::REX4, "Rex4"),
];
const M: u64 = u64::MAX;

/// The documented limits per spec: data, KV updates, compute gas, state growth, and the caps after
/// reading the block environment and the oracle.
fn doc_limits(s: MegaSpecId) -> [u64; 6] {
    match rank(s) {
        0 => [M; 6],
        1 => [3_276_800, 125_000, 1_000_000_000, M, 20_000_000, 1_000_000],
        2..=4 => [13_107_200, 500_000, 200_000_000, 1_000, 20_000_000, 1_000_000],
        _ => [13_107_200, 500_000, 200_000_000, 1_000, 20_000_000, 20_000_000],
    }
}
fn vec6(l: &EvmTxRuntimeLimits) -> [u64; 6] {
    [
        l.tx_data_size_limit,
        l.tx_kv_updates_limit,
        l.tx_compute_gas_limit,
        l.tx_state_growth_limit,
        l.block_env_access_compute_gas_limit,
        l.oracle_access_compute_gas_limit,
    ]
}
fn vec16(l: &BlockLimits) -> [u64; 16] {
    [
        l.tx_data_limit,
        l.tx_kv_update_limit,
        l.tx_compute_gas_limit,
        l.tx_state_growth_limit,
        l.block_env_access_compute_gas_limit,
        l.oracle_access_compute_gas_limit,
        l.tx_gas_limit,
        l.block_gas_limit,
        l.tx_encode_size_limit,
        l.block_txs_encode_size_limit,
        l.tx_da_size_limit,
        l.block_da_size_limit,
        l.block_txs_data_limit,
        l.block_kv_update_limit,
        l.block_compute_gas_limit,
        l.block_state_growth_limit,
    ]
}

// ------------------------------------------------------------------ schedules

const CONDS: [ForkCondition; 5] =
    [ForkCondition::Never, ForkCondition::Timestamp(0), ForkCondition::Timestamp(1), ForkCondition::Timestamp(2), ForkCondition::Block(0)];
fn active(c: usize, ts: u64) -> bool {
    (1..=3).contains(&c) && ts >= c as u64 - 1
}

/// Asks everything of one schedule through one handle on it.
fn ask<H: MegaHardforks>(h: &H, d: &[usize], how: &str) -> Result<u64, Bad> {
    let mut n = 0;
    for ts in [0u64, 1, 2, 3, M] {
        let last = (0..8).rev().find(|k| active(d[*k], ts));
        ensure_eq!(h.hardfork(ts), last.map(|k| FORKS[k].0), "{how}: hardfork at {ts}");
        ensure_eq!(h.spec_id(ts), last.map_or(MegaSpecId::EQUIVALENCE, |k| FORKS[k].2), "{how}: spec at {ts}");
        let got = [
            h.is_mini_rex_active_at_timestamp(ts),
            h.is_mini_rex_1_active_at_timestamp(ts),
            h.is_mini_rex_2_active_at_timestamp(ts),
            h.is_rex_active_at_timestamp(ts),
            h.is_rex_1_active_at_timestamp(ts),
            h.is_rex_2_active_at_timestamp(ts),
            h.is_rex_3_active_at_timestamp(ts),
            h.is_rex_4_active_at_timestamp(ts),
        ];
        let want: [bool; 8] = std::array::from_fn(|k| active(d[k], ts));
        ensure_eq!(got, want, "{how}: forks active at {ts}");
        n += 10;
        for parent in [0u64, 1, 2] {
            if parent > ts {
                continue;
            }
            for number in [1u64, 2, 1000] {
                for k in 0..8 {
                    let want = active(d[k], ts) && (number == 1 || !active(d[k], parent));
                    ensure_eq!(
                        h.first_hardfork_block(FORKS[k].0, parent, (number, ts)),
                        want,
                        "{how}: {} starts with block {number} at {ts} after a parent at {parent}",
                        FORKS[k].1
                    );
                    n += 1;
                }
            }
        }
    }
    for k in 0..8 {
        ensure_eq!(h.mega_fork_activation(FORKS[k].0), CONDS[d[k]], "{how}: condition of {}", FORKS[k].1);
    }
    ensure!(h.is_isthmus_active_at_timestamp(0) && h.is_holocene_active_at_timestamp(0) && h.is_canyon_active_at_timestamp(0), "{how}: Isthmus");
    ensure!(h.is_prague_active_at_timestamp(0) && h.is_cancun_active_at_timestamp(0) && h.is_paris_active_at_block(0), "{how}: Prague");
    ensure_eq!(h.ethereum_fork_activation(EthereumHardfork::Osaka), ForkCondition::Never, "{how}: Osaka");
    ensure_eq!(h.op_fork_activation(OpHardfork::Interop), ForkCondition::Never, "{how}: Interop");
    Ok(n)
}

fn schedule(d: &[usize], way: usize) -> Result<Case, Bad> {
    let ins = |c: &mut MegaHardforkConfig, k: usize| {
        if d[k] != 0 {
            c.insert(FORKS[k].0, CONDS[d[k]]);
        }
    };
    let mut cfg = MegaHardforkConfig::new();
    match way {
        // oldest first, newest first
        0 => (0..8).for_each(|k| ins(&mut cfg, k)),
        1 => (0..8).rev().for_each(|k| ins(&mut cfg, k)),
        // everything on, then changed and taken out
        _ => {
            cfg = cfg.with_all_activated();
            for k in 0..8 {
                cfg = if d[k] == 0 { cfg.without(FORKS[k].0) } else { cfg.with(FORKS[k].0, CONDS[d[k]]) };
            }
        }
    }
    for k in 0..8 {
        ensure_eq!(cfg.get(FORKS[k].0).copied(), (d[k] != 0).then_some(CONDS[d[k]]), "condition stored for {}", FORKS[k].1);
    }
    let n = ask(&cfg, d, "config")?;
    if way == 0 {
        ask(&Arc::new(cfg.clone()), d, "Arc")?;
        ask(&&cfg, d, "reference")?;
    }
    Ok(Case { state: hash_of(&d), transitions: n, traces: 1 })
}

// ------------------------------------------------------------------ enforcement

/// The ways to obtain an EVM with the limits of its spec.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Via {
    Context,
    Factory,
    FactoryInspector,
    Executor(usize),
    ExecutorInspector(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
    Data,
    Kv,
    Compute,
    Growth,
    AfterBlockEnv,
    AfterOracle,
}
const WHATS: [What; 6] = [What::Data, What::Kv, What::Compute, What::Growth, What::AfterBlockEnv, What::AfterOracle];

fn loop_sstore(n: u64) -> Vec<u8> {
    // PUSH4 n; loop: JUMPDEST DUP1 DUP1 SSTORE PUSH1 1 SWAP1 SUB DUP1 PUSH1 pc JUMPI
    let mut a = Asm::default().ops(&[0x63]).ops(&(n as u32).to_be_bytes());
    let pc = a.code.len() as u8;
    a = a.ops(&[0x5b, 0x80, 0x80, 0x55, 0x60, 1, 0x90, 0x03, 0x80, 0x60, pc, 0x57, 0x00]);
    a.build()
}
fn mem_gas(w: u64) -> u64 {
    3 * w + w * w / 512
}
fn burn(head: &[u8], words: u64, pad: u64) -> Vec<u8> {
    let mut a = Asm { code: head.to_vec() };
    // MSTORE8 at the last byte of the memory wanted
    a = a.op(0x5f).ops(&[0x63]).ops(&((words * 32 - 1) as u32).to_be_bytes()).op(0x53);
    a.ops(&vec![0x5b; pad as usize]).op(0).build()
}
fn logs(total: u64) -> Vec<u8> {
    const CHUNK: u64 = 1 << 20;
    let mut a = Asm::default();
    let mut left = total;
    while left > 0 {
        let k = left.min(CHUNK);
        a = a.ops(&[0x63]).ops(&(k as u32).to_be_bytes()).op(0x5f).op(0xa0);
        left -= k;
    }
    a.op(0).build()
}
fn world(code: &[u8]) -> World {
    let mut w = base_world();
    w.set(A, 0, 1, code);
    w.set(ORACLE, 0, 1, &Asm::default().push(1).op(0x54).op(0).build());
    w
}

struct Got {
    result: ExecutionResult<MegaHaltReason>,
    /// data, kv, compute, growth
    used: Option<[u64; 4]>,
}
fn exec(spec: MegaSpecId, via: Via, over: Option<fn(EvmTxRuntimeLimits) -> EvmTxRuntimeLimits>, code: &[u8], number: u64) -> Result<Got, Bad> {
    let block_env = || revm::context::BlockEnv { number: alloy_primitives::U256::from(number), ..block_env() };
    let w = world(code);
    let db = McDb::new(&w);
    let tx: MegaTransaction = tx_call(CALLER, A, vec![], 0);
    let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(spec);
    cfg.chain_id = 1;
    let env = EvmEnv::new(cfg, block_env());
    let rej = |e: String| Bad { what: format!("rejected: {e}") };
    macro_rules! go {
        ($evm:expr) => {{
            let o = $evm.execute_transaction(tx).map_err(|e| rej(format!("{e:?}")))?;
            Ok(Got { used: Some([o.data_size, o.kv_updates, o.compute_gas_used, o.state_growth_used]), result: o.result })
        }};
    }
    let fac = MegaEvmFactory::new().with_external_env_factory(McEnvs::default());
    match via {
        Via::Context => {
            let mut ctx = MegaContext::new(db, spec).with_block(block_env()).with_chain(Default::default());
            if let Some(f) = over {
                ctx = ctx.with_tx_runtime_limits(f(EvmTxRuntimeLimits::from_spec(spec)));
            }
            go!(MegaEvm::new(ctx))
        }
        Via::Factory => {
            let mut e = fac.create_evm(db, env);
            if let Some(f) = over {
                e = e.with_tx_runtime_limits(f(EvmTxRuntimeLimits::from_spec(spec)));
            }
            go!(e)
        }
        Via::FactoryInspector => {
            let mut e = fac.create_evm_with_inspector(db, env, NoOpInspector);
            if let Some(f) = over {
                e = e.with_tx_runtime_limits(f(EvmTxRuntimeLimits::from_spec(spec)));
            }
            let r = e.transact_raw(tx).map_err(|e| rej(format!("{e:?}")))?;
            Ok(Got { result: r.result, used: None })
        }
        Via::Executor(k) | Via::ExecutorInspector(k) => {
            let mut l = BlockLimits::from_hardfork_and_block_gas_limit(FORKS[k].0, block_env().gas_limit);
            if let Some(f) = over {
                l = l.with_tx_runtime_limits(f(l.to_evm_tx_runtime_limits()));
            }
            let mut st = State::builder().with_database(db).build();
            let mut sched = MegaHardforkConfig::new();
            for f in &FORKS[..=k] {
                sched.insert(f.0, ForkCondition::Timestamp(0));
            }
            let fac = MegaBlockExecutorFactory::new(sched, fac, OpAlloyReceiptBuilder::default());
            let ctx = MegaBlockExecutionCtx::new(B256::ZERO, Some(B256::ZERO), Bytes::new(), l);
            let r = if matches!(via, Via::Executor(_)) {
                fac.create_executor(&mut st, ctx, env).evm.transact_raw(tx)
            } else {
                fac.create_executor_with_inspector(&mut st, ctx, env, NoOpInspector).evm.transact_raw(tx)
            };
            let r = r.map_err(|e| rej(format!("{e:?}")))?;
            Ok(Got { result: r.result, used: None })
        }
    }
}

/// A program whose use of `what` is exactly `target`.
fn program(spec: MegaSpecId, what: What, target: u64) -> Result<Vec<u8>, Bad> {
    let idx = match what {
        What::Data => 0,
        What::Kv => 1,
        What::Growth => 3,
        _ => 2,
    };
    let used = |code: &[u8]| -> Result<u64, Bad> {
        let g = exec(spec, Via::Context, Some(|_| EvmTxRuntimeLimits::no_limits()), code, 1000)?;
        ensure!(g.result.is_success(), "harness: unlimited run fails: {:?}", g.result);
        Ok(g.used.unwrap()[idx])
    };
    let code = match what {
        What::Data => logs(target - (used(&logs(1))? - 1)),
        What::Kv | What::Growth => loop_sstore(target - (used(&loop_sstore(1))? - 1)),
        _ => {
            let head = match what {
                What::AfterBlockEnv => vec![0x42, 0x50],
                What::AfterOracle => Asm::default().push(0).push(0).push(0).push(0).push_addr(ORACLE).push(100_000).op(0xfa).op(0x50).build(),
                _ => vec![],
            };
            let base = used(&burn(&head, 1, 0))? - mem_gas(1);
            let mut words = 1;
            let mut step = 1 << 20;
            while step > 0 {
                if base + mem_gas(words + step) <= target - 2 {
                    words += step;
                }
                step >>= 1;
            }
            burn(&head, words, target - base - mem_gas(words))
        }
    };
    // EQUIVALENCE does not count
    let u = used(&code)?;
    ensure!(rank(spec) == 0 || u == target, "harness: program uses {u} instead of {target}");
    Ok(code)
}

type Programs = std::sync::Mutex<std::collections::HashMap<(u8, u8, u64), Arc<std::sync::OnceLock<Vec<u8>>>>>;

fn enforce(programs: &Programs, spec: MegaSpecId, via: Via, what: What, d: u64, number: u64) -> CaseResult {
    let lim = doc_limits(spec)[what as usize];
    // where there is no limit, the largest one of any spec does not stop anything either
    let at = if lim == M { if what == What::Growth { 1_000 } else { doc_limits(MegaSpecId::MINI_REX)[what as usize] } } else { lim };
    let counted = if rank(spec) == 0 { MegaSpecId::REX4 } else { spec };
    let cell = programs.lock().unwrap().entry((counted as u8, what as u8, at + d)).or_default().clone();
    if cell.get().is_none() {
        let c = program(counted, what, at + d)?;
        let _ = cell.set(c);
    }
    let code = cell.get().unwrap();
    // half a million updates need more of everything else
    let over: Option<fn(EvmTxRuntimeLimits) -> EvmTxRuntimeLimits> = if what == What::Kv {
        Some(|l| l.with_tx_data_size_limit(M).with_tx_compute_gas_limit(M).with_tx_state_growth_limit(M))
    } else {
        None
    };
    let g = exec(spec, via, over, code, number)?;
    let text = match &g.result {
        ExecutionResult::Success { .. } => "success".to_string(),
        ExecutionResult::Halt { reason, .. } => reason_text(reason),
        r => format!("{r:?}"),
    };
    if lim == M || d == 0 {
        ensure_eq!(text, "success".to_string(), "use of {} with limit {lim}", at + d);
    } else {
        let want = match what {
            What::Data => format!("Data {lim} "),
            What::Kv => format!("Kv {lim} "),
            What::Compute => format!("Compute {lim} "),
            What::Growth => format!("Growth {lim} "),
            _ => "VolatileDataAccessOutOfGas ".into(),
        };
        ensure!(text.starts_with(&want), "use of {} with limit {lim}: {text}", at + d);
        if matches!(what, What::AfterBlockEnv | What::AfterOracle) {
            ensure!(text.contains(&format!(" {lim} ")), "use of {} with limit {lim}: {text}", at + d);
        }
    }
    Ok(Case { state: hash_dbg(&(text, what as u8)), transitions: 3, traces: 1 })
}

pub fn c25(run: &Run) {
    // schedules
    let doms: Vec<(&str, &str, Vec<usize>)> = run.pick(
        vec![
            ("schedules", "absent, from time 0, 1 or 2", vec![0, 1, 2, 3]),
            ("schedules by number", "absent, from time 1 or by block number", vec![0, 2, 4]),
        ],
        vec![("schedules", "absent, from time 0, 1 or 2, or by block number", vec![0, 1, 2, 3, 4])],
    );
    for (name, text, dom) in &doms {
        let radix: Vec<u64> = std::iter::once(3).chain([dom.len() as u64; 8]).collect();
        let dec = |i: u64| {
            let d = digits(i, &radix);
            (d[0], d[1..].iter().map(|x| dom[*x]).collect::<Vec<_>>())
        };
        run.space(
            name,
            &format!("each of the 8 MegaETH hardforks {text} x three ways to build the schedule; asked at 5 times, for every parent time and block number 1, 2, 1000, also through references"),
            radix.iter().product(),
            |i| {
                let (w, d) = dec(i);
                format!("way {w} {:?}", (0..8).map(|k| (FORKS[k].1, CONDS[d[k]])).collect::<Vec<_>>())
            },
            |i| {
                let (w, d) = dec(i);
                schedule(&d, w)
            },
        );
    }
    // names, order, conversions
    run.space(
        "specs",
        "every pair of specs; every name and its changed spellings; every hardfork",
        49,
        |i| format!("{:?} {:?}", NAMES[i as usize / 7], NAMES[i as usize % 7]),
        |i| {
            let (i, j) = (i as usize / 7, i as usize % 7);
            let ((a, na), (b, nb)) = (NAMES[i], NAMES[j]);
            ensure_eq!(a.is_enabled(b), j <= i, "{na} includes {nb}");
            ensure_eq!(a.cmp(&b), i.cmp(&j), "order of {na} and {nb}");
            ensure_eq!(a == b, i == j, "equality");
            ensure_eq!(<&'static str>::from(a), na, "name");
            ensure_eq!(a.to_string(), na.to_string(), "display");
            ensure_eq!(MegaSpecId::from_str(na).ok(), Some(a), "from name");
            for bad_name in [na.to_lowercase(), na.to_uppercase(), format!("{na} "), format!("{na}5"), na[1..].to_string(), String::new()] {
                let known = NAMES.iter().find(|x| x.1 == bad_name).map(|x| x.0);
                ensure_eq!(MegaSpecId::from_str(&bad_name).ok(), known, "from {bad_name:?}");
            }
            let js = serde_json::to_string(&a).unwrap();
            ensure_eq!(serde_json::from_str::<MegaSpecId>(&js).ok(), Some(a), "json");
            ensure_eq!(OpSpecId::from(a), OpSpecId::ISTHMUS, "op spec");
            ensure_eq!(a.into_op_spec(), OpSpecId::ISTHMUS, "op spec");
            ensure_eq!(a.into_eth_spec(), revm::primitives::hardfork::SpecId::PRAGUE, "eth spec");
            ensure_eq!(MegaSpecId::default(), MegaSpecId::REX4, "default");
            let (f, name, s) = FORKS[i.min(7)];
            ensure_eq!(f.spec_id(), s, "spec of {name}");
            let (f, name, s) = FORKS[7];
            ensure_eq!(f.spec_id(), s, "spec of {name}");
            for (f, name, _) in FORKS {
                ensure_eq!(f.name(), name, "fork name");
                ensure_eq!(MegaHardfork::from_str(name).ok(), Some(f), "fork from name");
            }
            Ok(Case { state: hash_of(&(i, j)), transitions: 20, traces: 1 })
        },
    );
    // limits
    let gas = [0u64, 1, 30_000_000, M];
    run.space(
        "limit tables",
        "every spec and hardfork x 4 block gas limits; every setter",
        8 * 4,
        |i| format!("{} gas {}", FORKS[i as usize / 4].1, gas[i as usize % 4]),
        |i| {
            let (f, name, spec) = FORKS[i as usize / 4];
            let g = gas[i as usize % 4];
            let tx = doc_limits(spec);
            ensure_eq!(vec6(&EvmTxRuntimeLimits::from_spec(spec)), tx, "limits of {spec}");
            let l = BlockLimits::from_hardfork_and_block_gas_limit(f, g);
            let (data, kv, growth) = match rank(spec) {
                0 => (M, M, M),
                1 => (13_107_200, 500_000, M),
                _ => (13_107_200, 500_000, 1_000),
            };
            let mut want = [M; 16];
            want[..6].copy_from_slice(&tx);
            want[7] = g;
            want[12] = data;
            want[13] = kv;
            want[15] = growth;
            ensure_eq!(vec16(&l), want, "block limits of {name}");
            ensure_eq!(vec6(&l.to_evm_tx_runtime_limits()), tx, "transaction limits taken from the block limits of {name}");
            ensure_eq!(vec16(&l.to_block_limiter().limits), want, "limiter of {name}");
            let ctx = MegaContext::new(McDb::new(&base_world()), spec);
            let e = MegaEvm::new(ctx);
            let _ = e;
            // setters change one limit each
            let set: [fn(BlockLimits, u64) -> BlockLimits; 16] = [
                BlockLimits::with_tx_data_limit,
                BlockLimits::with_tx_kv_update_limit,
                BlockLimits::with_tx_compute_gas_limit,
                BlockLimits::with_tx_state_growth_limit,
                BlockLimits::with_block_env_access_compute_gas_limit,
                BlockLimits::with_oracle_access_compute_gas_limit,
                BlockLimits::with_tx_gas_limit,
                BlockLimits::with_block_gas_limit,
                BlockLimits::with_tx_encode_size_limit,
                BlockLimits::with_block_txs_encode_size_limit,
                BlockLimits::with_tx_da_size_limit,
                BlockLimits::with_block_da_size_limit,
                BlockLimits::with_block_txs_data_limit,
                BlockLimits::with_block_kv_update_limit,
                BlockLimits::with_block_compute_gas_limit,
                BlockLimits::with_block_state_growth_limit,
            ];
            for (k, f) in set.iter().enumerate() {
                let x = f(l, 77);
                let mut w = want;
                w[k] = 77;
                ensure_eq!(vec16(&x), w, "setter {k}");
                ensure_eq!(vec6(&x.to_evm_tx_runtime_limits())[..], w[..6], "transaction limits after setter {k}");
                ensure_eq!(vec16(&BlockLimits::no_limits().with_tx_runtime_limits(x.to_evm_tx_runtime_limits()))[..6], w[..6], "block limits from transaction limits");
            }
            let set: [fn(EvmTxRuntimeLimits, u64) -> EvmTxRuntimeLimits; 6] = [
                EvmTxRuntimeLimits::with_tx_data_size_limit,
                EvmTxRuntimeLimits::with_tx_kv_updates_limit,
                EvmTxRuntimeLimits::with_tx_compute_gas_limit,
                EvmTxRuntimeLimits::with_tx_state_growth_limit,
                EvmTxRuntimeLimits::with_block_env_access_compute_gas_limit,
                EvmTxRuntimeLimits::with_oracle_access_compute_gas_limit,
            ];
            for (k, f) in set.iter().enumerate() {
                let x = f(EvmTxRuntimeLimits::from_spec(spec), 77);
                let mut w = tx;
                w[k] = 77;
                ensure_eq!(vec6(&x), w, "transaction setter {k}");
            }
            Ok(Case { state: hash_dbg(&want), transitions: 26, traces: 1 })
        },
    );
    // configuration conversions
    let cr = [7u64, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2];
    run.space(
        "configuration",
        "every combination of non-default values of all 14 configuration fields x 7 specs, converted to the OP configuration and back and through an EVM",
        cr.iter().product(),
        |i| format!("{:?}", digits(i, &cr)),
        |i| {
            let d = digits(i, &cr);
            let spec = NAMES[d[0]].0;
            let mut c: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(spec);
            fn fill<S>(c: &mut CfgEnv<S>, d: &[usize]) {
                let on = |k: usize| d[k] == 1;
                c.chain_id = if on(1) { 6342 } else { 1 };
                c.tx_chain_id_check = on(2);
                c.limit_contract_code_size = on(3).then_some(1000);
                c.limit_contract_initcode_size = on(4).then_some(2000);
                c.disable_nonce_check = on(5);
                c.max_blobs_per_tx = on(6).then_some(3);
                c.blob_base_fee_update_fraction = on(7).then_some(4);
                c.tx_gas_limit_cap = on(8).then_some(5_000_000);
                c.memory_limit = if on(9) { 1 << 20 } else { (1 << 32) - 1 };
                c.disable_balance_check = on(10);
                c.disable_block_gas_limit = on(11);
                c.disable_eip3541 = on(12);
                c.disable_eip3607 = on(13);
                c.disable_base_fee = on(14);
            }
            fill(&mut c, &d);
            let mut o: CfgEnv<OpSpecId> = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
            fill(&mut o, &d);
            ensure_eq!(format!("{:?}", c.clone().into_op_cfg()), format!("{o:?}"), "converted to OP");
            ensure_eq!(format!("{:?}", o.into_megaeth_cfg(spec)), format!("{c:?}"), "converted to MegaETH");
            // through a factory-made EVM; absent code size limits are those of the spec
            let evm = MegaEvmFactory::new().create_evm(revm::database::EmptyDB::default(), EvmEnv::new(c.clone(), block_env()));
            ensure_eq!(evm.chain_id(), c.chain_id, "chain id");
            ensure_eq!(format!("{:?}", evm.block()), format!("{:?}", block_env()), "block");
            let (_, env) = evm.finish();
            if rank(spec) >= R_MINI {
                c.limit_contract_code_size = c.limit_contract_code_size.or(Some(524_288));
                c.limit_contract_initcode_size = c.limit_contract_initcode_size.or(Some(548_864));
            }
            ensure_eq!(format!("{:?}", env.cfg_env), format!("{c:?}"), "configuration returned by the EVM");
            ensure_eq!(format!("{:?}", env.block_env), format!("{:?}", block_env()), "block returned by the EVM");
            Ok(Case { state: hash_of(&d), transitions: 3, traces: 1 })
        },
    );
    // enforcement at the boundary
    let mut cases = vec![];
    for (spec, _) in NAMES {
        let mut vias = vec![Via::Context, Via::Factory, Via::FactoryInspector];
        for (k, f) in FORKS.iter().enumerate() {
            if f.2 == spec {
                vias.push(Via::Executor(k));
                vias.push(Via::ExecutorInspector(k));
            }
        }
        for (v, via) in vias.into_iter().enumerate() {
            for (k, what) in WHATS.into_iter().enumerate() {
                for d in 0..2 {
                    cases.push((v, k, (spec, via, what, d, 1000)));
                }
                // the first blocks of a chain; the slow ones once
                if matches!(what, What::Growth | What::AfterBlockEnv) {
                    for n in [1, u64::MAX] {
                        cases.push((v, k, (spec, via, what, 1, n)));
                    }
                }
            }
        }
    }
    // executions that share a program come one after another
    cases.sort_by_key(|c| (c.0, c.1));
    let cases: Vec<_> = cases.into_iter().map(|c| c.2).collect();
    let programs = Programs::default();
    run.space(
        "default limits in force",
        "every spec x context, factory, block executor of each hardfork, with and without inspector x each of the 6 limits x a transaction that uses exactly the limit and one that uses one more; block 1 and the last",
        cases.len() as u64,
        |i| format!("{:?}", cases[i as usize]),
        |i| {
            let (s, v, w, d, n) = cases[i as usize];
            enforce(&programs, s, v, w, d, n)
        },
    );
}
