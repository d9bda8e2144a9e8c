//! Histories of transactions on one EVM (C13).
use crate::{common::*, prog::*, runner::*};
use alloy_evm::Evm;
use alloy_primitives::{Address, Bytes, B256, U256};
use mega_evm::{EvmTxRuntimeLimits, MegaEvm, MegaSpecId, MegaTransaction, MegaTransactionOutcome};
use revm::{inspector::NoOpInspector, state::EvmState};

/// log GAS
fn gas_log_code() -> Vec<u8> {
    Asm::default().op(0x5a).push(0).op(0x52).push(32).push(0).op(0xa0).build()
}
/// burns about 230 gas per unit
fn burn(units: u64) -> Vec<u8> {
    // cold reads of distinct slots
    (0..units * 230 / 2105).fold(Asm::default(), |a, k| a.push(1000 + k).op(0x54).op(0x50)).build()
}
fn call_code(to: Address, kind: u8) -> Vec<u8> {
    let mut a = Asm::default().push(0).push(0).push(0).push(0);
    if kind == 0xf1 {
        a = a.push(0);
    }
    a.push_addr(to).push(u64::MAX).op(kind).op(0x50).build()
}

/// The scripts of the history contract, selected by the first byte of the calldata.
fn scripts() -> Vec<(&'static str, Vec<u8>)> {
    let ts = vec![0x42, 0x50];
    let bal = Asm::default().push_addr(COINBASE).op(0x31).op(0x50).build();
    let rev = Asm::default().push(0).push(0).op(0xfd).build();
    let log3 = |n: u64| Asm::default().push(1).push(2).push(3).push(n).push(0).op(0xa3).build();
    let mut many = Asm::default();
    for k in 10..16 {
        many = many.sstore(k, k);
    }
    let mut kvs = Asm::default();
    for k in 20..30 {
        kvs = kvs.sstore(k, 3);
    }
    let tl = Asm::default().push(9).op(0x5c).push(0).op(0x52).push(32).push(0).op(0xa0).push(5).push(9).op(0x5d).build();
    let warm = [
        gas_log_code(),
        Asm::default().push(5).op(0x54).op(0x50).push_addr(EOA).op(0x31).op(0x50).build(),
        gas_log_code(),
    ]
    .concat();
    let init = Asm::default().push(3).push(0).op(0xf3).build();
    let create = Asm::default().mem(0, &init).push(init.len() as u64).push(0).push(0).op(0xf0).op(0x50).build();
    vec![
        ("write+log", [Asm::default().sstore(1, 7).build(), log3(5)].concat()),
        ("write then revert", [Asm::default().sstore(1, 8).build(), ts.clone(), rev].concat()),
        ("invalid", [ts.clone(), vec![0xfe]].concat()),
        ("burn over the limit", burn(2000)),
        ("timestamp", ts.clone()),
        ("timestamp and burn over the cap", [ts.clone(), burn(600)].concat()),
        ("oracle", call_code(ORACLE, 0xf1)),
        ("oracle and burn over the cap", [call_code(ORACLE, 0xfa), burn(400)].concat()),
        ("logs over the data limit", log3(3000)),
        ("new slots over the growth limit", many.build()),
        ("kv over the limit", kvs.build()),
        ("beneficiary balance", bal),
        ("moderate burn", burn(500)),
        ("transient storage", tl),
        ("cold reads", warm),
        ("create", create),
        ("nested revert", [call_code(B, 0xf1), call_code(A, 0xf4)].concat()),
        ("clear slot", Asm::default().sstore(5, 0).sstore(1, 0).build()),
        ("blockhash", Asm::default().push(998).op(0x40).op(0x50).build()),
        ("self-destruct", Asm::default().push_addr(EOA).op(0xff).build()),
    ]
}
pub fn hist_world() -> World {
    // dispatcher as in Image::compile_all, hand-made because the scripts are raw
    let ss = scripts();
    let n = ss.len();
    let head = 4 + n * 8 + 1;
    let mut pos = head;
    let mut code = vec![0x5f, 0x35, 0x5f, 0x1a];
    for (i, (_, c)) in ss.iter().enumerate() {
        code.extend_from_slice(&[0x80, 0x60, i as u8, 0x14, 0x61]);
        code.extend_from_slice(&(pos as u16).to_be_bytes());
        code.push(0x57);
        pos += 3 + c.len();
    }
    code.push(0xfe);
    for (_, c) in &ss {
        code.push(0x5b);
        code.push(0x50);
        code.extend_from_slice(c);
        code.push(0);
    }
    assert!(code.len() < 65536);
    let mut w = base_world();
    let a = w.set(A, ETHER, 1, &code);
    for k in [5, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29] {
        a.storage.insert(U256::from(k), U256::from(55));
    }
    w.set(B, ETHER, 1, &[Asm::default().sstore(3, 3).build(), vec![0xfe]].concat());
    w.set(ORACLE, 0, 1, &Asm::default().push(1).op(0x54).op(0).build());
    w.set(COINBASE, 5, 2, &[]);
    w.set(SYSTEM_ADDR, 0, 4, &[]);
    w.set(KEYLESS, 0, 1, &Asm::default().push(0).push(0).op(0xfd).build());
    for (_, r) in keyless_reqs() {
        w.set(r.signer().unwrap(), ETHER, 0, &[]);
    }
    w
}
pub fn hist_limits() -> EvmTxRuntimeLimits {
    let mut l = EvmTxRuntimeLimits::no_limits();
    l.tx_compute_gas_limit = 400_000;
    l.block_env_access_compute_gas_limit = 130_000;
    l.oracle_access_compute_gas_limit = 110_000;
    l.tx_data_size_limit = 2_000;
    l.tx_kv_updates_limit = 9;
    l.tx_state_growth_limit = 5;
    l
}

#[derive(Clone, Debug)]
enum Step {
    Tx(String, MegaTransaction),
    SysCall(Address, Bytes),
    /// the transaction, with the given database read failing
    Fault(String, MegaTransaction, u64),
}
fn step_name(s: &Step) -> String {
    match s {
        Step::Tx(n, _) => n.clone(),
        Step::Fault(n, _, k) => format!("{n}, read {k} failing"),
        y => format!("{y:?}"),
    }
}
/// Transactions stopped by a failing database, at every read each of them makes.
fn faults() -> Vec<Step> {
    let w = hist_world();
    let mut v = vec![];
    for (n, mut t) in tx_kinds() {
        if !["nested revert", "create", "oracle", "self-destruct", "deposit", "keyless deployment", "contract creation", "authorisation", "system transaction"].contains(&n.as_str()) {
            continue;
        }
        if t.base.nonce == w.nonce(t.base.caller) {
            t.base.nonce = 0;
        }
        for k in 0..40 {
            let step = Step::Fault(n.clone(), t.clone(), k);
            let mut hit = false;
            for spec in [MegaSpecId::EQUIVALENCE, MegaSpecId::MINI_REX, MegaSpecId::REX3] {
                let mut s = Setup::new(spec).salt(512);
                s.limits = Some(hist_limits());
                let mut evm: E = MegaEvm::new(mega_ctx(McDb::new(&w), &s));
                apply(&mut evm, &w, &step);
                hit |= evm.ctx.journaled_state.database.reads > k;
            }
            if hit {
                v.push(step);
            }
        }
    }
    v
}

/// All steps; transactions get the sender's current nonce when they are submitted.
fn steps(all: bool) -> Vec<Step> {
    let mut v = vec![];
    for (i, (n, _)) in scripts().iter().enumerate() {
        v.push(Step::Tx(n.to_string(), tx_call(CALLER, A, vec![i as u8], 0)));
    }
    let tx = |n: &str, t: MegaTransaction| Step::Tx(n.into(), t);
    v.push(tx("transfer to a new account", tx_call(CALLER, NONE, vec![], 1)));
    v.push(tx("rejected: not enough gas", with_gas(tx_call(CALLER, A, vec![4], 0), 21_000)));
    let mut bad_nonce = tx_call(CALLER, A, vec![5], 0);
    bad_nonce.base.nonce = 1_000_000;
    v.push(tx("rejected: nonce", bad_nonce));
    v.push(tx("out of gas", with_gas(tx_call(CALLER, A, vec![12], 0), 90_000)));
    v.push(tx("system transaction", tx_call(SYSTEM_ADDR, ORACLE, vec![], 0)));
    v.push(tx("rejected: system callee", tx_call(SYSTEM_ADDR, A, vec![5], 0)));
    v.push(tx("to the beneficiary", tx_call(CALLER, COINBASE, vec![], 3)));
    v.push(Step::SysCall(A, Bytes::from(vec![5])));
    let mut al = tx_call(CALLER, A, vec![14], 0);
    al.base.access_list = vec![revm::context::transaction::AccessListItem {
        address: A,
        storage_keys: vec![B256::with_last_byte(5)],
    }]
    .into();
    al.base.tx_type = 1;
    v.push(tx("access list", al));
    if all {
        let mut dep = tx_call(EOA, A, vec![4], 0);
        dep.deposit.source_hash = B256::repeat_byte(3);
        dep.deposit.mint = Some(77);
        v.push(tx("deposit", dep.clone()));
        dep.base.value = U256::from(ETHER);
        v.push(tx("failing deposit", dep));
        v.push(tx("contract creation", tx_create(CALLER, Asm::default().push(2).push(0).op(0xf3).build(), 0)));
        v.push(tx("large creation", tx_create(CALLER, Asm::default().push(4000).push(0).op(0xf3).build(), 0)));
        v.push(tx("keyless call", tx_call(CALLER, KEYLESS, keyless_garbage(), 0)));
        for (n, r) in keyless_reqs() {
            let d = super::keyless::calldata(&r.raw(), U256::from(600_000));
            let mut t = tx_call(CALLER, KEYLESS, d, 0);
            v.push(tx(n, t.clone()));
            t.base.tx_type = 1;
            t.base.access_list = vec![revm::context::transaction::AccessListItem {
                address: r.signer().unwrap(),
                storage_keys: vec![],
            }]
            .into();
            if n == "keyless deployment" {
                v.push(tx("keyless deployment, signer in the access list", t));
            }
        }
        v.push(tx("big calldata", tx_call(CALLER, EOA, vec![1; 1900], 0)));
        v.push(tx("from the beneficiary", tx_call(COINBASE, A, vec![12], 0)));
        v.push(Step::SysCall(A, Bytes::from(vec![3])));
        let mut t = tx_call(CALLER, A, vec![13], 0);
        t.base.tx_type = 4;
        t.base.authorization_list = super::exec::auths(1);
        v.push(tx("authorisation", t));
    }
    v
}
/// The transactions among the steps, ready to run on the initial world.
pub fn tx_kinds() -> Vec<(String, MegaTransaction)> {
    let w = hist_world();
    steps(true)
        .into_iter()
        .filter_map(|s| match s {
            Step::Tx(n, mut t) => {
                if t.base.nonce == 0 {
                    t.base.nonce = w.nonce(t.base.caller);
                }
                Some((n, t))
            }
            _ => None,
        })
        .collect()
}
/// a keyless deployment whose init code writes and calls, and one that fails
fn keyless_reqs() -> Vec<(&'static str, super::keyless::Req)> {
    let good = [Asm::default().sstore(1, 7).build(), call_code(B, 0xf1), Asm::default().op(0x42).op(0x50).push(2).push(0).op(0xf3).build()].concat();
    let bad = [Asm::default().sstore(1, 7).build(), vec![0xfe]].concat();
    vec![("keyless deployment", super::keyless::Req::new(good)), ("failing keyless deployment", super::keyless::Req::new(bad))]
}
/// keylessDeploy(bytes,uint256) of bytes that do not decode
fn keyless_garbage() -> Vec<u8> {
    let mut v = alloy_primitives::keccak256("keylessDeploy(bytes,uint256)")[..4].to_vec();
    let word = |x: u64| U256::from(x).to_be_bytes::<32>();
    v.extend(word(64));
    v.extend(word(100));
    v.extend(word(1));
    v.extend({
        let mut b = [0u8; 32];
        b[0] = 0xc1;
        b
    });
    v
}

#[derive(Debug, PartialEq, Eq, Clone)]
struct Out {
    res: Result<Obs, String>,
    post: World,
    usage: (u64, u64, u64, u64),
    access: u16,
}
fn out(w: &World, r: Result<(revm::context::result::ExecutionResult<mega_evm::MegaHaltReason>, EvmState), MegaErr>, usage: (u64, u64, u64, u64), access: u16) -> Out {
    match r {
        Ok((r, st)) => Out { res: Ok(obs(&r)), post: post_world(w, &st), usage, access },
        // what is left in the counters after a rejection is not an outcome
        Err(e) => Out { res: Err(format!("{e:?}")), post: w.clone(), usage: (0, 0, 0, 0), access: 0 },
    }
}
type E = MegaEvm<McDb, NoOpInspector, McEnvs>;
fn usage_of(evm: &E) -> ((u64, u64, u64, u64), u16) {
    let u = evm.ctx.additional_limit.borrow().get_usage();
    ((u.compute_gas, u.data_size, u.kv_updates, u.state_growth), evm.ctx.volatile_data_tracker.borrow().get_volatile_data_accessed().bits())
}
fn apply(evm: &mut E, w: &World, step: &Step) -> Out {
    if let Step::Fault(_, _, k) = step {
        evm.ctx.journaled_state.database.fail_at = Some(*k);
    }
    let r = match step {
        Step::Tx(_, t) | Step::Fault(_, t, _) => {
            let mut t = t.clone();
            if t.base.nonce == 0 {
                t.base.nonce = w.nonce(t.base.caller);
            }
            let o: Result<MegaTransactionOutcome, MegaErr> = evm.execute_transaction(t);
            if let Ok(m) = &o {
                let u = usage_of(evm).0;
                assert_eq!((m.compute_gas_used, m.data_size, m.kv_updates, m.state_growth_used), u, "reported usage");
            }
            o.map(|m| (m.result, m.state))
        }
        Step::SysCall(to, d) => evm.transact_system_call(CALLER, *to, d.clone()).map(|x| (x.result, x.state)),
    };
    let (u, a) = usage_of(evm);
    out(w, r, u, a)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    Plain,
    Inspected,
    Alternating,
}

fn history(spec: MegaSpecId, mode: Mode, seq: &[&Step]) -> CaseResult {
    let mut w = hist_world();
    let mut s = Setup::new(spec).salt(512);
    s.limits = Some(hist_limits());
    let fresh = |w: &World, lim: Option<u64>| -> E {
        let mut s = s.clone();
        if let Some(l) = lim {
            s.limits.as_mut().unwrap().tx_compute_gas_limit = l;
        }
        MegaEvm::new(mega_ctx(McDb::new(w), &s))
    };
    let mut evm = fresh(&w, None);
    if mode == Mode::Inspected {
        evm = evm.with_inspector(NoOpInspector);
    }
    let mut n = 0;
    // caps that earlier transactions may have left behind (before REX1)
    let mut caps: Vec<u64> = vec![];
    let mut h = vec![];
    for (i, st) in seq.iter().enumerate() {
        if mode == Mode::Alternating {
            evm.set_inspector_enabled(i % 2 == 0);
        }
        evm.ctx.journaled_state.database = McDb::new(&w);
        let got = apply(&mut evm, &w, st);
        let want = apply(&mut fresh(&w, None), &w, st);
        n += 2;
        if got != want {
            let mut ok = false;
            if rank(spec) < R_REX1 {
                for c in &caps {
                    n += 1;
                    ok |= apply(&mut fresh(&w, Some(*c)), &w, st) == got;
                }
            }
            if !ok {
                return bad(format!("step {i}: reused EVM {got:?}\nfresh EVM {want:?}"));
            }
        }
        let l = s.limits.unwrap();
        let access = usage_of(&evm).1;
        if access & 0x7ff != 0 {
            caps.push(l.block_env_access_compute_gas_limit);
        }
        if access & 1 << 11 != 0 {
            caps.push(l.oracle_access_compute_gas_limit);
        }
        w = got.post.clone();
        h.push((got.res, got.usage));
    }
    Ok(Case { state: hash_dbg(&h), transitions: n, traces: n })
}

pub fn c13(run: &Run) {
    if std::env::var("VERIF_LIST").is_ok() {
        for spec in REX_SPECS {
            for st in steps(true) {
                let mut s = Setup::new(spec).salt(512);
                s.limits = Some(hist_limits());
                let w = hist_world();
                let o = apply(&mut MegaEvm::new(mega_ctx(McDb::new(&w), &s)), &w, &st);
                let name = step_name(&st);
                println!("{spec:?} {name:40} {:?} {:?} {:x}", o.res.map(|o| (o.res, o.gas_used)), o.usage, o.access);
            }
        }
    }
    let sp = |name: &str, al: Vec<Step>, n: u32, specs: &[MegaSpecId], modes: &[Mode]| {
        let a = al.len() as u64;
        let per = a.pow(n);
        let (k, m) = (specs.len() as u64, modes.len() as u64);
        let dec = |i: u64| {
            let mut x = i / k / m;
            let mut seq = vec![];
            for _ in 0..n {
                seq.push(&al[(x % a) as usize]);
                x /= a;
            }
            (specs[(i % k) as usize], modes[(i / k % m) as usize], seq)
        };
        run.space(
            name,
            &format!("all sequences of {n} steps over {a} kinds of transactions x {k} specs x {modes:?}"),
            per * k * m,
            |i| {
                let (s, m, q) = dec(i);
                format!("{s:?} {m:?} {:?}", q.iter().map(|x| step_name(x)).collect::<Vec<_>>())
            },
            |i| {
                let (s, m, q) = dec(i);
                history(s, m, &q)
            },
        );
    };
    sp("triples", steps(true), 3, &ALL_SPECS, &[Mode::Plain]);
    sp("pairs", steps(true), 2, &ALL_SPECS, &[Mode::Plain, Mode::Inspected, Mode::Alternating]);
    // what a failure leaves behind
    let (fs, al) = (faults(), steps(true));
    let (f, a, k) = (fs.len() as u64, al.len() as u64, ALL_SPECS.len() as u64);
    let more = run.pick(1, 2u32);
    let per = a.pow(more);
    let dec = |i: u64| {
        let mut x = i / k / f;
        let mut q = vec![&fs[(i / k % f) as usize]];
        for _ in 0..more {
            q.push(&al[(x % a) as usize]);
            x /= a;
        }
        (ALL_SPECS[(i % k) as usize], q)
    };
    run.space(
        "after failures",
        &format!("{f} transactions stopped by a failing read, then all sequences of {more} of the other steps x 7 specs x plain and inspected"),
        f * per * k * 2,
        |i| format!("{:?} {:?}", dec(i / 2).0, dec(i / 2).1.iter().map(|x| step_name(x)).collect::<Vec<_>>()),
        |i| {
            let (s, q) = dec(i / 2);
            history(s, if i % 2 == 0 { Mode::Plain } else { Mode::Inspected }, &q)
        },
    );
    // long histories
    let reps = run.pick(6, 30);
    let specs: &[MegaSpecId] = run.pick(&[MegaSpecId::MINI_REX, MegaSpecId::REX3][..], &ALL_SPECS[..]);
    let k = specs.len() as u64;
    run.space(
        "cycles",
        &format!("all pairs of steps, {reps} times in a row, {k} specs"),
        a * a * k,
        |i| format!("{:?} {} {}", specs[(i % k) as usize], step_name(&al[(i / k / a) as usize]), step_name(&al[(i / k % a) as usize])),
        |i| {
            let q = [&al[(i / k / a) as usize], &al[(i / k % a) as usize]].repeat(reps);
            history(specs[(i % k) as usize], Mode::Plain, &q)
        },
    );
    if run.thorough() {
        sp("inspected triples", steps(true), 3, &ALL_SPECS, &[Mode::Inspected, Mode::Alternating]);
        sp("quadruples", steps(true), 4, &[MegaSpecId::MINI_REX, MegaSpecId::REX1, MegaSpecId::REX3], &[Mode::Plain]);
    }
}
