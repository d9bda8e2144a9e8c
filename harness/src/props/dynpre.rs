//! C32: custom precompiles given to the factory.
use super::block::forks_for;
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use alloy_evm::{
    precompiles::{DynPrecompile, PrecompileInput},
    EvmEnv, EvmFactory,
};
use alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use alloy_primitives::{address, Address, Bytes, Log, B256, U256};
use mega_evm::{
    BlockLimits, DynPrecompilesBuilder, MegaBlockExecutionCtx, MegaBlockExecutorFactory, MegaEvmFactory, MegaSpecId, MegaTransaction,
    MegaTransactionOutcome,
};
use revm::{
    context::CfgEnv,
    database::State,
    inspector::NoOpInspector,
    precompile::{PrecompileError, PrecompileOutput},
};
use std::sync::{Arc, Mutex};

const NEW1: Address = address!("000000000000000000000000000000000000d0d0");
/// Where custom precompiles may be installed: over built-in ones, over a contract, over an
/// account, and at unused addresses.
fn places() -> [Address; 6] {
    [Address::with_last_byte(2), Address::with_last_byte(5), Address::with_last_byte(0x0a), NEW1, B, EOA]
}
fn targets() -> Vec<Address> {
    let mut v = places().to_vec();
    v.push(Address::with_last_byte(4));
    v.push(NONE);
    v
}

/// input: behaviour, price (2 bytes), rest
fn custom(spec: MegaSpecId, at: Address) -> DynPrecompile {
    let f = move |mut i: PrecompileInput<'_>| {
        let price = i.data.get(1..3).map_or(700, |p| u16::from_be_bytes([p[0], p[1]]) as u64);
        if i.gas < price {
            return Err(PrecompileError::OutOfGas);
        }
        let mut out = vec![spec as u8 + 1];
        out.extend_from_slice(at.as_slice());
        out.extend_from_slice(i.caller.as_slice());
        out.extend_from_slice(&i.value.to_be_bytes::<32>());
        out.extend_from_slice(&i.gas.to_be_bytes());
        out.extend_from_slice(&i.internals.block_number().to_be_bytes::<32>());
        out.extend_from_slice(i.data);
        match i.data.first() {
            Some(2) => return Err(PrecompileError::other("no")),
            Some(3) => return Err(PrecompileError::Fatal("fatal".into())),
            Some(4) => {
                // uses the state: writes a slot of its own account and logs
                let e = |_| PrecompileError::other("state");
                i.internals.load_account(at).map_err(e)?;
                i.internals.touch_account(at);
                i.internals.sstore(at, U256::from(1), U256::from(9)).map_err(e)?;
                i.internals.log(Log::new_unchecked(at, vec![B256::with_last_byte(1)], Bytes::from_static(b"x")));
            }
            _ => {}
        }
        Ok(PrecompileOutput::new(price, out.into()))
    };
    f.into()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Tx,
    Call,
    CallValue,
    CallCode,
    Delegate,
    Static,
    Balance,
}
const WAYS: [Way; 7] = [Way::Tx, Way::Call, Way::CallValue, Way::CallCode, Way::Delegate, Way::Static, Way::Balance];

/// A contract that calls `to` with its calldata and returns flag and output.
fn relay(w: Way, to: Address, gas: u64) -> Vec<u8> {
    if w == Way::Balance {
        return Asm::default()
            .push_addr(to)
            .ops(&[0x5a, 0x90, 0x31, 0x50, 0x5a, 0x90, 0x03, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xf3])
            .build();
    }
    let mut a = Asm::default().ops(&[0x36, 0x5f, 0x5f, 0x37]);
    a = a.push(0).push(0).op(0x36).push(0);
    let op = match w {
        Way::Call | Way::CallValue => 0xf1,
        Way::CallCode => 0xf2,
        Way::Delegate => 0xf4,
        _ => 0xfa,
    };
    if op == 0xf1 || op == 0xf2 {
        a = a.push((w == Way::CallValue) as u64);
    }
    a.push_addr(to)
        .push(gas)
        .op(op)
        .ops(&[0x5f, 0x53])
        .ops(&[0x3d, 0x5f, 0x60, 0x01, 0x3e])
        .ops(&[0x3d, 0x60, 0x01, 0x01, 0x5f, 0xf3])
        .build()
}

type Out = Result<MegaTransactionOutcome, String>;
/// Executes transactions one after another on one EVM made by the factory.
fn through(route: usize, mask: u64, s: &Setup, w: &World, txs: &[MegaTransaction], asked: &Arc<Mutex<Vec<MegaSpecId>>>) -> Vec<Out> {
    let rec = asked.clone();
    let builder: DynPrecompilesBuilder = Arc::new(move |spec| {
        rec.lock().unwrap().push(spec);
        places().into_iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, a)| (a, custom(spec, a))).collect()
    });
    // the order in which the factory is configured does not matter
    let f = if mask % 2 == 0 {
        MegaEvmFactory::new().with_dyn_precompiles_builder(builder).with_external_env_factory(s.envs.clone())
    } else {
        MegaEvmFactory::new().with_external_env_factory(s.envs.clone()).with_dyn_precompiles_builder(builder)
    };
    let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(s.spec);
    cfg.chain_id = s.chain_id;
    let mut block = s.block.clone();
    block.gas_limit = u64::MAX;
    let env = EvmEnv::new(cfg, block);
    let db = McDb::new(w);
    macro_rules! go {
        ($evm:expr) => {
            txs.iter().map(|t| $evm.execute_transaction(t.clone()).map_err(|e| format!("{e:?}"))).collect()
        };
    }
    match route {
        0 => {
            let mut evm = f.create_evm(db, env);
            go!(evm)
        }
        1 => {
            let mut evm = f.create_evm_with_inspector(db, env, NoOpInspector);
            go!(evm)
        }
        _ => {
            let mut st = State::builder().with_database(db).build();
            let fac = MegaBlockExecutorFactory::new(forks_for(s.spec), f, OpAlloyReceiptBuilder::default());
            let ctx = MegaBlockExecutionCtx::new(B256::repeat_byte(9), Some(B256::ZERO), Bytes::new(), BlockLimits::no_limits());
            use alloy_evm::block::BlockExecutor;
            if route == 2 {
                let mut ex = fac.create_executor(&mut st, ctx, env);
                go!(ex.evm_mut())
            } else {
                let mut ex = fac.create_executor_with_inspector(&mut st, ctx, env, NoOpInspector);
                go!(ex.evm_mut())
            }
        }
    }
}
type Seen = Result<(Obs, u64, u64, u64, u64, World), String>;
fn seen(w: &World, o: &Out) -> Seen {
    o.as_ref()
        .map(|m| (obs(&m.result), m.compute_gas_used, m.data_size, m.kv_updates, m.state_growth_used, post_world(w, &m.state)))
        .map_err(|e| e.clone())
}

pub fn c32(run: &Run) {
    let ts = targets();
    let masks: u64 = 64;
    let routes: u64 = 4;
    let specs = ALL_SPECS;
    let total = masks * routes * specs.len() as u64 * ts.len() as u64;
    let dec = |i: u64| {
        let t = ts[(i % ts.len() as u64) as usize];
        let i = i / ts.len() as u64;
        let spec = specs[(i % specs.len() as u64) as usize];
        let i = i / specs.len() as u64;
        ((i % routes) as usize, i / routes, spec, t)
    };
    run.space(
        "custom precompiles",
        "every subset of 6 addresses (3 built-in, a contract, an account, an unused one) x factory, factory with inspector, block executor with and without inspector x 7 specs x 8 called addresses x 7 ways of calling x 5 behaviours x {exact gas, one less, ample}",
        total,
        |i| {
            let (r, m, s, t) = dec(i);
            format!("{s:?} route {r} custom at {m:#b} calling {t}")
        },
        |i| {
            let (r, m, s, t) = dec(i);
            one(r, m, s, t)
        },
    );
}

fn one(route: usize, mask: u64, spec: MegaSpecId, to: Address) -> CaseResult {
    let mut s = Setup::new(spec);
    s.block.gas_limit = u64::MAX;
    let is_custom = places().iter().position(|p| *p == to).is_some_and(|k| mask >> k & 1 == 1);
    let mut n = 0;
    let mut h = vec![];
    for way in WAYS {
        let mut spent: Vec<(u64, u64)> = vec![];
        for (k, (behaviour, price, gas)) in [
            (1u8, 20_000u16, 20_000u64),
            (1, 20_000, 19_999),
            (1, 20_000, 100_000),
            (1, 21_200, 100_000),
            (2, 20_000, 100_000),
            (3, 20_000, 100_000),
            (4, 20_000, 100_000),
        ]
        .into_iter()
        .enumerate()
        {
            if (way == Way::Tx && gas < 100_000) || (way == Way::Balance && k > 0) {
                spent.push((0, 0));
                continue;
            }
            // writing is for plain calls: what a function does to the state elsewhere is its affair
            if behaviour == 4 && !matches!(way, Way::Call | Way::Tx) {
                continue;
            }
            let mut data = vec![behaviour];
            data.extend(price.to_be_bytes());
            data.extend([5, 6, 7]);
            let mut w = base_world();
            w.set(A, 50, 1, &relay(way, to, gas));
            w.set(B, 3, 1, &Asm::default().push(0xbeef).push(0).op(0x52).push(32).push(0).op(0xf3).build());
            let tv = if way == Way::Delegate || way == Way::Tx { 3 } else { 0 };
            let tx = tx_call(CALLER, if way == Way::Tx { to } else { A }, data.clone(), tv);
            let asked = Arc::new(Mutex::new(vec![]));
            // a second transaction on the same EVM: an ordinary call
            let after = {
                let mut t = tx_call(CALLER, Address::with_last_byte(4), vec![1, 2], 0);
                t.base.nonce = 0;
                t
            };
            let got = through(route, mask, &s, &w, &[tx.clone(), after.clone()], &asked);
            n += 2;
            ensure_eq!(*asked.lock().unwrap(), vec![spec], "{way:?}: specs the builder was asked for");
            let plain = |t: &MegaTransaction| seen(&w, &mega_run(&McDb::new(&w), &s, t.clone()).map_err(|e| format!("{e:?}")));
            ensure_eq!(seen(&w, &got[1]), plain(&after), "{way:?} {data:?} gas {gas}: the transaction after");
            let got = seen(&w, &got[0]);
            if !is_custom {
                ensure_eq!(got, plain(&tx), "{way:?} {data:?} gas {gas}: not a custom address");
                h.push(hash_dbg(&got));
                continue;
            }
            if way == Way::Balance {
                // as warm as a built-in one
                let mut w2 = w.clone();
                w2.set(A, 50, 1, &relay(way, Address::with_last_byte(4), gas));
                let want = seen(&w2, &mega_run(&McDb::new(&w2), &s, tx.clone()).map_err(|e| format!("{e:?}")));
                ensure_eq!(got.as_ref().unwrap().0, want.unwrap().0, "balance of a custom precompile");
                continue;
            }
            if behaviour == 3 {
                ensure!(got.is_err(), "{way:?}: a fatal error gave {got:?}");
                continue;
            }
            let (o, compute, _, _, _, after_w) = match got {
                Ok(x) => x,
                Err(e) => return bad(format!("{way:?} {data:?}: rejected {e}")),
            };
            let mut eff = gas + if way == Way::CallValue { 2_300 } else { 0 };
            let ok = behaviour != 2 && eff >= price as u64;
            if way == Way::Tx {
                // everything left after the intrinsic gas
                let zeros = data.iter().filter(|b| **b == 0).count() as u64;
                let tokens = zeros + 4 * (data.len() as u64 - zeros);
                let extra = match rank(spec) {
                    0 => 0,
                    1 => 40 * tokens,
                    _ => 40 * tokens + 39_000,
                };
                // value to an account that does not exist
                let fresh = w.accts.get(&to).is_none();
                let new_account = if fresh && rank(spec) == 1 { 2_000_000 } else { 0 };
                eff = tx.base.gas_limit - 21_000 - 4 * tokens - extra - new_account;
            }
            let mut out = vec![spec as u8 + 1];
            out.extend_from_slice(to.as_slice());
            out.extend_from_slice(if matches!(way, Way::Delegate | Way::Tx) { CALLER.as_slice() } else { A.as_slice() });
            let v = match way {
                Way::CallValue => 1,
                Way::Delegate | Way::Tx => 3u64,
                _ => 0,
            };
            out.extend_from_slice(&U256::from(v).to_be_bytes::<32>());
            out.extend_from_slice(&eff.to_be_bytes());
            out.extend_from_slice(&s.block.number.to_be_bytes::<32>());
            out.extend_from_slice(&data);
            let writes = behaviour == 4 && ok;
            if way == Way::Tx {
                if ok {
                    ensure_eq!(o.res, Res::Success { out: out.clone().into(), created: None }, "transaction {data:?}");
                    ensure_eq!(o.gas_used, (tx.base.gas_limit - eff + price as u64).max(super::exec::floor_gas(rank(spec), &tx)), "gas used {data:?}");
                } else {
                    ensure!(matches!(o.res, Res::Halt(_)), "transaction {data:?}: {:?}", o.res);
                    ensure_eq!(o.gas_used, tx.base.gas_limit, "gas used by a failing precompile");
                }
            } else {
                let exp: Vec<u8> = if ok { [&[1u8][..], &out].concat() } else { vec![0] };
                ensure_eq!(o.res, Res::Success { out: exp.into(), created: None }, "{way:?} {data:?} gas {gas}");
            }
            if rank(spec) >= R_MINI && way == Way::Tx && ok {
                let tokens = 4 * data.iter().filter(|b| **b != 0).count() as u64 + data.iter().filter(|b| **b == 0).count() as u64;
                ensure_eq!(compute, 21_000 + 4 * tokens + price as u64, "compute gas {data:?}");
            }
            // effects
            let bal = |x: &World, a: Address| x.accts.get(&a).map_or(U256::ZERO, |x| x.balance);
            let moved = if ok && matches!(way, Way::CallValue | Way::Tx) { v } else { 0 };
            ensure_eq!(bal(&after_w, to), bal(&w, to) + U256::from(moved), "{way:?} {data:?}: balance of the precompile");
            let slot = after_w.accts.get(&to).and_then(|x| x.storage.get(&U256::from(1)).copied()).unwrap_or_default();
            // (an account that stays empty is cleared)
            let kept = !bal(&after_w, to).is_zero();
            ensure_eq!(slot, if writes && kept { U256::from(9) } else { U256::ZERO }, "{way:?} {data:?}: slot written by the precompile");
            ensure_eq!(o.logs.len(), writes as usize, "{way:?} {data:?}: logs");
            spent.push((o.gas_used, compute));
            h.push(hash_dbg(&o));
        }
        if is_custom && !matches!(way, Way::Balance | Way::Tx) {
            // the price is all that a dearer call costs more, in gas and in compute gas
            ensure_eq!(spent[3].0 - spent[2].0, 1_200, "{way:?}: gas of a dearer call");
            let e = |x: u64| if rank(spec) >= R_MINI { x } else { 0 };
            ensure_eq!(spent[3].1 - spent[2].1, e(1_200), "{way:?}: compute gas of a dearer call");
            // a failing one costs all it was given
            // (and spares the relay copying 4 words of output and 3 words of memory)
            let st = if way == Way::CallValue { 2_300 } else { 0 };
            ensure_eq!(spent[4].0 - spent[2].0, 100_000 + st - 20_000 - 21, "{way:?}: gas of a failing call");
        }
    }
    Ok(Case { state: hash_of(&h), transitions: n, traces: n })
}
