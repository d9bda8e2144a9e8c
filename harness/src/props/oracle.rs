//! Volatile data caps (C10), oracle reads (C11), oracle hints (C12).
use super::exec::*;
use super::{keyless::{digits, product}, limits::*};
use crate::{common::*, ensure, ensure_eq, prog::*, reft::*, runner::*};
use alloy_primitives::{keccak256, Address, Bytes, B256, U256};
use mega_evm::{MegaEvm, MegaSpecId, MegaTransaction};
use std::{collections::BTreeMap, sync::Arc};

/// The program world with the same code at the oracle and at the beneficiary.
pub fn volatile_world(top: &Body) -> World {
    let mut w = prog_world(top, false);
    let code = w.acct(A).code;
    for a in [ORACLE, COINBASE] {
        w.set(a, 500 * ETHER, 1, &code).storage.insert(U256::from(5), U256::from(77));
    }
    w.set(SYSTEM_ADDR, 0, 4, &[]);
    w
}

fn acc_op(name: &'static str, op: u8, a: Address) -> Op {
    Op::Raw(name, Asm::default().push_addr(a).op(op).op(0x50).build())
}

pub fn volatile_leaves() -> Vec<Op> {
    let zero = |name, op| Op::Raw(name, vec![op, 0x50]);
    vec![
        zero("number", 0x43),
        zero("timestamp", 0x42),
        zero("coinbase", 0x41),
        zero("prevrandao", 0x44),
        zero("gaslimit", 0x45),
        zero("basefee", 0x48),
        zero("blobbasefee", 0x4a),
        Op::Raw("blobhash", vec![0x5f, 0x49, 0x50]),
        Op::Raw("blockhash", Asm::default().push(998).op(0x40).op(0x50).build()),
        acc_op("balance(beneficiary)", 0x31, COINBASE),
        acc_op("extcodesize(beneficiary)", 0x3b, COINBASE),
        acc_op("extcodehash(beneficiary)", 0x3f, COINBASE),
        Op::Raw("extcodecopy(beneficiary)", Asm::default().push(0).push(0).push(0).push_addr(COINBASE).op(0x3c).build()),
    ]
}
fn volatile_alphabet(deep: bool) -> Alphabet {
    let call = |kind, to, value| Op::Call { kind, to, value, gas: G::All, body: None };
    let mut leaves = if deep {
        let v = volatile_leaves();
        vec![v[1].clone(), v[9].clone()]
    } else {
        volatile_leaves()
    };
    leaves.extend([
        Op::Sload(5),
        Op::Sstore(1, 7),
        Op::Raw("keccak+mem", vec![0x61, 0x01, 0x00, 0x5f, 0x20, 0x50]),
    ]);
    if !deep {
        leaves.push(Op::Raw("selfbalance", vec![0x47, 0x50]));
        leaves.push(acc_op("balance(oracle)", 0x31, ORACLE));
        leaves.push(acc_op("extcodesize(oracle)", 0x3b, ORACLE));
    }
    let mut calls = vec![
        call(CK::Call, B, 0),
        call(CK::Call, ORACLE, 0),
        call(CK::Static, ORACLE, 0),
        call(CK::Delegate, ORACLE, 0),
        call(CK::Call, COINBASE, 0),
    ];
    if !deep {
        calls.push(call(CK::Call, ORACLE, 1));
        calls.push(call(CK::CallCode, ORACLE, 0));
        calls.push(call(CK::Static, COINBASE, 0));
        calls.push(call(CK::Delegate, COINBASE, 0));
    }
    Alphabet {
        leaves,
        calls,
        creates: vec![Op::Create { two: false, value: 0, init: Body::new(vec![], End::Stop) }],
        call_ends: vec![End::Stop, End::Revert],
        init_ends: vec![End::Return(1), End::Revert],
        top_ends: vec![End::Stop],
        max_depth: 3,
    }
}

/// (sender, callee) of the transactions; the system sender may only call the oracle.
const ROUTES: [(Address, Address); 5] =
    [(CALLER, A), (CALLER, ORACLE), (SYSTEM_ADDR, ORACLE), (COINBASE, A), (CALLER, COINBASE)];

pub fn route_tx(r: (Address, Address)) -> MegaTransaction {
    let mut tx = tx_call(r.0, r.1, vec![], 0);
    if r.0 == SYSTEM_ADDR {
        tx.deposit.source_hash = B256::repeat_byte(1);
        tx.base.nonce = 4;
    }
    if r.0 == COINBASE {
        tx.base.nonce = 1;
    }
    tx
}

fn check_volatile(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction) -> CaseResult {
    check_volatile_some(run, w, s, tx, usize::MAX)
}
/// With at most `most` values of the caps, evenly spread and with both ends.
fn check_volatile_some(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction, most: usize) -> CaseResult {
    let db = McDb::new(w);
    let r = ref_run(&db, s, tx, IMPL);
    if r.result.is_err() || r.t.diverged {
        return Ok(Case::default());
    }
    let mut evm = MegaEvm::new(mega_ctx(db, &s.clone().unlimited()));
    let m = evm.execute_transaction(unmark(tx)).map_err(|e| Bad { what: format!("rejected: {e:?}") })?;
    let tracker = evm.ctx.volatile_data_tracker.borrow();
    ensure_eq!(tracker.get_volatile_data_accessed().bits(), r.t.access, "volatile data accessed");
    ensure_eq!(tracker.get_block_env_accesses().bits(), r.t.access & 0x3ff, "block environment accessed");
    ensure_eq!(tracker.has_accessed_oracle(), r.t.access & 1 << 11 != 0, "oracle accessed");
    ensure_eq!(tracker.has_accessed_beneficiary_balance(), r.t.access & 1 << 10 != 0, "beneficiary accessed");
    let full = Full {
        obs: obs(&m.result),
        post: post_world(w, &m.state),
        usage: (m.data_size, m.kv_updates, m.state_growth_used),
    };
    // caps below the usage at the first access all act alike
    let first = r.t.evs.iter().find(|e| e.blk || e.orc).map(|e| e.compute).unwrap_or(u64::MAX);
    let mut ths = thresholds(&r.t, |e| e.compute as i128);
    let below = ths.iter().filter(|t| **t < first).count().saturating_sub(2);
    ths.drain(..below);
    let mut n = 1;
    for (i, th) in ths.iter().enumerate() {
        if ths.len() > most && i >= 4 && i + 4 < ths.len() && i % ths.len().div_ceil(most) != 0 {
            continue;
        }
        let next = ths.get(i + 1).copied().unwrap_or(th + 1);
        let max = u64::MAX;
        let combos: &[(u64, u64, u64)] = &[
            (max, *th, max),
            (max, max, *th),
            (max, *th, next),
            (max, next, *th),
            (*th, next, next),
        ];
        for (tl, b, o) in combos {
            if !r.t.blk && !r.t.orc && *tl == max && i > 0 {
                continue;
            }
            let mut l = no_limits();
            l.tx_compute_gas_limit = *tl;
            l.block_env_access_compute_gas_limit = *b;
            l.oracle_access_compute_gas_limit = *o;
            let mut s2 = s.clone();
            s2.limits = Some(l);
            n += 1;
            check_limit_case(
                run,
                &LimitCase { w, s: s2, tx, t: &r.t },
                &[Part::Reason, Part::State, Part::Usage, Part::Gas],
                Some(&full),
            )?;
        }
    }
    Ok(Case { state: hash_dbg(&(&full.obs, r.t.access, n)), transitions: n, traces: n })
}

pub fn c10(run: &Run) {
    let space = |name: &str, al: Alphabet, n: usize, specs: &[MegaSpecId], routes: &[(Address, Address)]| {
        let (k, rt) = (specs.len() as u64, routes.len() as u64);
        run.space(
            name,
            &format!("all program trees with <= {n} nodes over {} leaves and {} calls x {} specs x routes x every value of both caps and the transaction limit that separates two charges", al.leaves.len(), al.calls.len(), specs.len()),
            al.total(n) * k * rt,
            |i| format!("{:?} {:?} {:?}", al.at(n, i / k / rt), specs[(i % k) as usize], routes[(i / k % rt) as usize]),
            |i| {
                let p = al.at(n, i / k / rt);
                let w = volatile_world(&p);
                let s = Setup::new(specs[(i % k) as usize]).unlimited();
                check_volatile(run, &w, &s, &route_tx(routes[(i / k % rt) as usize]))
            },
        );
    };
    space("programs x caps", volatile_alphabet(false), 2, run.pick(&[MegaSpecId::REX2, MegaSpecId::REX3], &REX_SPECS), &ROUTES[..run.pick(3, 5)]);
    space("short programs x caps", volatile_alphabet(false), 1, &REX_SPECS, &ROUTES);
    space("deep programs x caps", volatile_alphabet(true), run.pick(2, 4), &REX_SPECS, &ROUTES);
    volatile_senders(run);
    volatile_chains(run);
    default_caps(run);
}

/// Transactions of every type from and to the beneficiary, with and without code of its own.
fn volatile_senders(run: &Run) {
    let al = volatile_alphabet(false);
    let n = run.pick(1, 2);
    let progs = al.total(n) as usize;
    let types = [0u8, 1, 2, 4, 0x7e];
    let radix = [progs, REX_SPECS.len(), types.len(), 2, 3, 2];
    run.space(
        "beneficiary as sender and callee",
        &format!("all program trees with <= {n} nodes x spec x transaction type x sender (beneficiary, other) x callee (contract, beneficiary, creation) x beneficiary (plain, delegated) x every value of the caps that separates two charges"),
        product(&radix),
        |i| {
            let d = digits(i, &radix);
            format!("{:?} {:?} type {} {:?}", al.at(n, d[0] as u64), REX_SPECS[d[1]], types[d[2]], &d[3..])
        },
        |i| {
            let d = digits(i, &radix);
            let p = al.at(n, d[0] as u64);
            let mut w = volatile_world(&p);
            w.set(COINBASE, 500 * ETHER, 1, &if d[5] == 1 { delegation(A) } else { vec![] });
            let from = [CALLER, COINBASE][d[3]];
            if d[4] == 2 && p.ops.iter().any(|o| !matches!(o, Op::Raw(..))) {
                return Ok(Case::default());
            }
            let mut t = match d[4] {
                0 => tx_call(from, A, vec![], 0),
                1 => tx_call(from, COINBASE, vec![], 1),
                _ => tx_create(from, Image::compile_init(&p, false), 0),
            };
            t.base.nonce = w.nonce(from);
            t.base.tx_type = types[d[2]];
            match types[d[2]] {
                2 => t.base.gas_priority_fee = Some(0),
                4 => {
                    if d[4] == 2 {
                        return Ok(Case::default());
                    }
                    t.base.gas_priority_fee = Some(0);
                    t.base.authorization_list = auths(1);
                }
                0x7e => {
                    t.deposit.source_hash = B256::repeat_byte(3);
                    t.deposit.mint = Some(5);
                    t.base.gas_limit = 1 << 40;
                    t.enveloped_tx = None;
                }
                _ => {}
            }
            let s = Setup::new(REX_SPECS[d[1]]).unlimited();
            let c = check_volatile(run, &w, &s, &t)?;
            if d[0] == 0 {
                ensure!(c.transitions > 0, "the reference rejects the transaction");
            }
            Ok(c)
        },
    );
}

/// A world with one contract at every address that matters.
fn chain_world(code: &[u8], oracle: &[u8]) -> World {
    let mut w = hint_world(code, oracle);
    for a in [A, B] {
        w.accts.get_mut(&a).unwrap().balance = U256::from(1000 * ETHER);
    }
    w.set(COINBASE, 5, 1, &[0]);
    w.accts.get_mut(&ORACLE).unwrap().storage.insert(U256::from(5), U256::from(77));
    w
}
fn chain_depths(run: &Run) -> Vec<u64> {
    run.pick(vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65, 200, 1023], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 600, 1000, 1023])
}
fn word(d: u64) -> Vec<u8> {
    U256::from(d).to_be_bytes::<32>().to_vec()
}
/// A volatile access far down a chain of calls, and work on the way back.
fn volatile_chains(run: &Run) {
    let mut cases = vec![];
    for d in chain_depths(run) {
        for (kind, value) in [(CK::Call, 0), (CK::Call, 1), (CK::Delegate, 0), (CK::Static, 0)] {
            for leaf in ["timestamp", "basefee", "beneficiary", "oracle", "delegate to oracle"] {
                for each in ["none", "keccak", "timestamp", "oracle"] {
                    if d > 33 && each != "none" && !run.thorough() {
                        continue;
                    }
                    for rev in [None, Some((0, 0xfdu8)), Some((d, 0xfd)), Some((d / 2 + 1, 0xfe))] {
                        if d > 100 && !run.thorough() && (kind != CK::Call || rev.is_some()) {
                            continue;
                        }
                        cases.push((d, kind, value, leaf, each, rev));
                    }
                }
            }
        }
    }
    let specs = [MegaSpecId::MINI_REX, MegaSpecId::REX2, MegaSpecId::REX4];
    let k = specs.len() as u64;
    let most = run.pick(3, 30);
    run.space(
        "chains x caps",
        &format!("a volatile access at the bottom of a chain of calls, optionally others on the way, failing at the bottom, in the middle or at the top x up to {most} values of each cap plus the ends x 3 specs"),
        cases.len() as u64 * k,
        |i| format!("{:?} {:?}", cases[(i / k) as usize], specs[(i % k) as usize]),
        |i| {
            let (d, kind, value, leaf, each, rev) = cases[(i / k) as usize];
            let w = chain_world(&chain_code(kind, B, value, leaf, each, rev), &oracle_codes()[1]);
            let s = Setup::new(specs[(i % k) as usize]).unlimited();
            check_volatile_some(run, &w, &s, &tx_call(CALLER, A, word(d), 0), most)
        },
    );
}

/// The default caps, at their exact boundary.
fn default_caps(run: &Run) {
    let mut cases = vec![];
    for spec in REX_SPECS {
        for first in 0..5u8 {
            for d in [-1i64, 0, 1, 2] {
                cases.push((spec, first, d));
            }
        }
    }
    run.space(
        "default caps",
        "each spec x {block environment, beneficiary, oracle, oracle then block, block then oracle} x compute gas one below, at, one and two above the documented cap",
        cases.len() as u64,
        |i| format!("{:?}", cases[i as usize]),
        |i| {
            let (spec, first, d) = cases[i as usize];
            let oracle_cap = if rank(spec) >= R_REX3 { 20_000_000 } else { 1_000_000 };
            let cap: u64 = match first {
                0 | 1 => 20_000_000,
                _ => oracle_cap,
            };
            let orc = Asm::default().push(0).push(0).push(0).push(0).push_addr(ORACLE).push(u64::MAX).op(0xfa).op(0x50).build();
            let blk = vec![0x42, 0x50];
            let head: Vec<u8> = match first {
                0 => blk,
                1 => Asm::default().push_addr(COINBASE).op(0x31).op(0x50).build(),
                2 => orc,
                3 => [orc, blk].concat(),
                _ => [blk, orc].concat(),
            };
            let mk = |iters: u64, pad: usize| {
                let mut a = Asm { code: head.clone() };
                a = a.ops(&[0x62]).ops(&iters.to_be_bytes()[5..]);
                let pc = a.code.len() as u8;
                // loop: JUMPDEST PUSH1 1 SWAP1 SUB DUP1 PUSH1 pc JUMPI
                a = a.ops(&[0x5b, 0x60, 1, 0x90, 0x03, 0x80, 0x60, pc, 0x57]);
                a.ops(&vec![0x5b; pad]).op(0).build()
            };
            let world = |code: &[u8]| {
                let mut w = base_world();
                w.set(A, 0, 1, code);
                w.set(COINBASE, 5, 0, &[]);
                w.set(ORACLE, 0, 1, &Asm::default().push(1).op(0x54).op(0).build());
                w
            };
            let s = Setup::new(spec);
            let tx = tx_call(CALLER, A, vec![], 0);
            let use_of = |it, pad| {
                let w = world(&mk(it, pad));
                ref_run(&McDb::new(&w), &s, &tx, DOC).t.compute
            };
            let (u1, u2) = (use_of(1, 0), use_of(2, 0));
            let per = u2 - u1;
            let target = (cap as i64 + d) as u64;
            let iters = (target - u1) / per;
            let pad = (target - u1) % per + per;
            let w = world(&mk(iters, pad as usize));
            let m = mega_run(&McDb::new(&w), &s, tx).map_err(|e| Bad { what: format!("rejected {e:?}") })?;
            let o = obs(&m.result);
            if d <= 0 {
                ensure_eq!(o.res, Res::Success { out: Bytes::new(), created: None }, "compute gas {target} under cap {cap}");
                ensure_eq!(m.compute_gas_used, target, "compute gas");
            } else {
                ensure!(m.result.is_halt(), "compute gas {target} over the cap {cap}: {:?}", o.res);
                ensure!(format!("{:?}", m.result).contains("VolatileDataAccessOutOfGas"), "reason {:?}", o.res);
                ensure_eq!(m.compute_gas_used, cap + 1, "stopped late");
            }
            Ok(Case { state: hash_dbg(&o), transitions: 1, traces: 1 })
        },
    );
}

// ------------------------------------------------------------------ C11

fn with_oracle(mut s: Setup, vals: &[(u64, u64)]) -> Setup {
    s.envs.oracle.values = Arc::new(vals.iter().map(|(k, v)| (U256::from(*k), U256::from(*v))).collect::<BTreeMap<_, _>>());
    s
}
const VALUES: [&[(u64, u64)]; 4] = [&[], &[(1, 9), (5, 0)], &[(5, 12)], &[(1, 7), (5, 77)]];

fn oracle_alphabet() -> Alphabet {
    let call = |kind, to, value| Op::Call { kind, to, value, gas: G::All, body: None };
    Alphabet {
        leaves: vec![
            sload_log(5),
            sload_log(1),
            Op::Sstore(5, 0),
            Op::Sstore(1, 7),
            Op::Sstore(5, 77),
            gas_log(),
        ],
        calls: vec![
            call(CK::Call, B, 0),
            call(CK::Call, ORACLE, 0),
            call(CK::Static, ORACLE, 0),
            call(CK::Delegate, ORACLE, 0),
            call(CK::CallCode, ORACLE, 0),
            call(CK::Delegate, B, 0),
        ],
        creates: vec![],
        call_ends: vec![End::Stop, End::Revert],
        init_ends: vec![],
        top_ends: vec![End::Stop],
        max_depth: 3,
    }
}

/// Consecutive repeats of a read are one.
fn squash(t: &[OracleEv]) -> Vec<OracleEv> {
    let mut v: Vec<OracleEv> = vec![];
    for e in t {
        if v.last() != Some(e) || matches!(e, OracleEv::Hint(..)) {
            v.push(e.clone());
        }
    }
    v
}

pub fn c11(run: &Run) {
    let al = oracle_alphabet();
    let n = run.pick(3, 4);
    let specs: &[MegaSpecId] = run.pick(&[MegaSpecId::MINI_REX, MegaSpecId::REX2, MegaSpecId::REX3], &REX_SPECS);
    let routes = [(CALLER, A), (CALLER, ORACLE), (SYSTEM_ADDR, ORACLE)];
    let (k, v, rt) = (specs.len() as u64, VALUES.len() as u64, routes.len() as u64);
    let dec = |i: u64| (al.at(n, i / k / v / rt), specs[(i % k) as usize], VALUES[(i / k % v) as usize], routes[(i / k / v % rt) as usize]);
    run.space(
        "programs",
        &format!("all program trees with <= {n} nodes over reads, writes and calls of every kind at the oracle and elsewhere x supplied values x sender/callee x specs"),
        al.total(n) * k * v * rt,
        |i| format!("{:?}", dec(i)),
        |i| {
            let (p, spec, vals, route) = dec(i);
            let w = volatile_world(&p);
            let s = with_oracle(Setup::new(spec).unlimited(), vals);
            check_oracle(run, &w, &s, &route_tx(route))
        },
    );
    // deep and repeated reads
    let mut deep = vec![];
    for d in chain_depths(run) {
        for (kind, value) in [(CK::Call, 0), (CK::Call, 1), (CK::Delegate, 0), (CK::Static, 0), (CK::CallCode, 0)] {
            for (leaf, each) in [("oracle", "none"), ("delegate to oracle", "none"), ("oracle", "oracle")] {
                for rev in [None, Some((0, 0xfdu8)), Some((d, 0xfd)), Some((d / 2 + 1, 0xfe))] {
                    if d > 100 && !run.thorough() && (kind != CK::Call || rev.is_some()) {
                        continue;
                    }
                    deep.push((d, chain_code(kind, B, value, leaf, each, rev)));
                }
            }
        }
        let read = |a: Asm| a.push(0).push(0).push(0).push(0).push_addr(ORACLE).push(u64::MAX).op(0xfa).op(0x50);
        deep.push((d, repeat(d, read(Asm::default()))));
        deep.push((d, repeat(d, read(Asm::default().sstore(1, 7).op(0x80).push(0).op(0x55)))));
    }
    let k2 = REX_SPECS.len() as u64;
    run.space(
        "chains",
        "oracle reads at the bottom of a chain of calls, on every level, and repeated, x supplied values, all specs",
        deep.len() as u64 * k2 * v,
        |i| format!("{} {}", deep[(i / k2 / v) as usize].0, alloy_primitives::hex::encode(&deep[(i / k2 / v) as usize].1)),
        |i| {
            let (d, code) = &deep[(i / k2 / v) as usize];
            let s = with_oracle(Setup::new(REX_SPECS[(i % k2) as usize]).unlimited(), VALUES[(i / k2 % v) as usize]);
            check_oracle(run, &chain_world(code, &oracle_codes()[1]), &s, &tx_call(CALLER, A, word(*d), 0))
        },
    );
    // every slot number and value: the oracle contract reads the slot its input names
    let mut nums = vec![];
    for slot in BIG {
        for stored in [U256::ZERO, U256::from(1), U256::MAX] {
            for given in BIG.iter().map(|x| Some(*x)).chain([None]) {
                for route in [(CALLER, A), (CALLER, ORACLE), (SYSTEM_ADDR, ORACLE)] {
                    nums.push((slot, stored, given, route));
                }
            }
        }
    }
    run.space(
        "numbers",
        "slot number x stored value x supplied value, from 0 to 2^256 - 1, read by the oracle contract for another contract and for a transaction, all specs",
        nums.len() as u64 * k2,
        |i| format!("{:?} {:?}", nums[(i / k2) as usize], REX_SPECS[(i % k2) as usize]),
        |i| {
            let (slot, stored, given, route) = nums[(i / k2) as usize];
            // returns the slot named by the calldata, after logging it with a marker byte
            let oc = Asm::default().push(0).op(0x35).op(0x54).op(0x80).push(0).op(0x52).push(33).push(0).op(0xa1).push(32).push(0).op(0xf3).build();
            let code = Asm::default().push_u256(slot).push(0).op(0x52).push(32).push(0).push(32).push(0).push_addr(ORACLE).push(u64::MAX).op(0xfa).op(0x50)
                .push(32).push(0).push(32).push(0).push(0).push_addr(ORACLE).push(u64::MAX).op(0xf1).op(0x50).push(33).push(0).op(0xa0).op(0x00).build();
            let mut w = hint_world(&code, &oc);
            if !stored.is_zero() {
                w.accts.get_mut(&ORACLE).unwrap().storage.insert(slot, stored);
            }
            let mut s = Setup::new(REX_SPECS[(i % k2) as usize]).unlimited();
            if let Some(g) = given {
                s.envs.oracle.values = Arc::new([(slot, g)].into_iter().collect());
            }
            let mut tx = route_tx(route);
            tx.base.data = slot.to_be_bytes::<32>().to_vec().into();
            check_oracle(run, &w, &s, &tx)
        },
    );
    // the service is not consulted in EQUIVALENCE
    run.space(
        "equivalence",
        &format!("the same programs with <= 2 nodes in EQUIVALENCE"),
        al.total(2) * v,
        |i| format!("{:?}", al.at(2, i / v)),
        |i| {
            let w = volatile_world(&al.at(2, i / v));
            let s = with_oracle(Setup::new(MegaSpecId::EQUIVALENCE), VALUES[(i % v) as usize]);
            let db = McDb::new(&w);
            for to in [A, ORACLE] {
                let tx = tx_call(CALLER, to, vec![], 0);
                let m = mega_run(&db, &s, tx.clone()).map_err(|e| Bad { what: format!("{e:?}") })?;
                let (r, st) = op_run(&db, &s, &tx).map_err(|e| Bad { what: e })?;
                ensure_eq!(obs(&m.result), obs(&r), "outcome");
                ensure_eq!(post_world(&w, &m.state), post_world(&w, &st), "state");
            }
            ensure!(s.envs.oracle.trace.borrow().is_empty(), "the oracle service was consulted");
            Ok(Case { state: 0, transitions: 2, traces: 2 })
        },
    );
}

fn check_oracle(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction) -> CaseResult {
    let db = McDb::new(w);
    let r = ref_run(&db, s, tx, IMPL);
    s.envs.oracle.trace.borrow_mut().clear();
    let m = mega_run(&db, s, unmark(tx)).map_err(|e| Bad { what: format!("rejected {e:?}") })?;
    let Ok((rr, rs)) = &r.result else { return bad("the reference rejects") };
    let (om, or) = (obs(&m.result), obs(rr));
    ensure_eq!(om.res, or.res, "result");
    let strip = |l: &Vec<(Address, Vec<B256>, Bytes)>| l.iter().map(|x| (x.0, x.1.clone(), if x.2.len() == 32 { Bytes::new() } else { x.2.clone() })).collect::<Vec<_>>();
    ensure_eq!(strip(&om.logs), strip(&or.logs), "values read");
    let reads: Vec<u64> = om.logs.iter().filter(|l| l.2.len() == 32).map(|l| U256::from_be_slice(&l.2).to()).collect();
    ensure_eq!(reads, r.t.gas_reads, "gas left");
    ensure_eq!(post_world(w, &m.state), post_world(w, rs), "state");
    let _ = run;
    ensure_eq!(om.gas_used, r.t.gas_used(floor_gas(rank(s.spec), tx), 0), "gas used");
    ensure_eq!(m.compute_gas_used, r.t.compute, "compute gas");
    let got = squash(&s.envs.oracle.trace.borrow());
    ensure_eq!(got, squash(&r.t.oracle_trace), "what the oracle service sees");
    Ok(Case { state: hash_dbg(&(om, r.t.oracle_trace)), transitions: r.t.steps, traces: 1 })
}

// ------------------------------------------------------------------ C12

pub fn hint_input(topic: u8, data: &[u8]) -> Vec<u8> {
    let mut v = keccak256("sendHint(bytes32,bytes)")[..4].to_vec();
    v.extend_from_slice(&[topic; 32]);
    v.extend_from_slice(&U256::from(64).to_be_bytes::<32>());
    v.extend_from_slice(&U256::from(data.len()).to_be_bytes::<32>());
    v.extend_from_slice(data);
    while v.len() % 32 != 4 {
        v.push(0);
    }
    v
}
fn hint_inputs() -> Vec<(&'static str, Vec<u8>)> {
    let h = hint_input(7, b"abc");
    let mut v = vec![
        ("hint", h.clone()),
        ("hint, 33 bytes", hint_input(1, &[9; 33])),
        ("hint, empty", hint_input(0, &[])),
        ("hint, 32 bytes", hint_input(0xff, &[1; 32])),
        ("hint, 5000 bytes", hint_input(3, &[5; 5000])),
        ("empty", vec![]),
        ("selector only", h[..4].to_vec()),
        ("3 bytes", h[..3].to_vec()),
        ("truncated head", h[..67].to_vec()),
        ("truncated before the length", h[..99].to_vec()),
        ("truncated data", h[..102].to_vec()),
        ("unpadded", h[..103].to_vec()),
        ("trailing bytes", [&h[..], &[0; 32]].concat()),
        ("trailing byte", [&h[..], &[1]].concat()),
    ];
    let mut x = h.clone();
    x[0] ^= 1;
    v.push(("another selector", x));
    let mut x = h.clone();
    x[3] ^= 0x80;
    v.push(("another selector (last byte)", x));
    let mut x = h.clone();
    x[67] = 0xff;
    v.push(("offset out of range", x));
    let mut x = h.clone();
    x[36] = 1;
    v.push(("huge offset", x));
    let mut x = h.clone();
    x[68] = 1;
    v.push(("huge length", x));
    let mut x = h.clone();
    x[99] = 33;
    v.push(("length beyond the input", x));
    let mut x = h.clone();
    x[131] = 1;
    v.push(("dirty padding", x));
    let mut x = h.clone();
    x[67] = 96;
    x.splice(68..68, [0xee; 32]);
    v.push(("gap before the data", x));
    let mut x = h.clone();
    x[67] = 65;
    x.insert(68, 0);
    v.push(("unaligned data", x));
    // other functions of the oracle contract, and hashes of near names
    for f in ["sendHint(bytes32,bytes32)", "sendHint(bytes,bytes32)", "getSlot(uint256)", "sendHint(bytes32,string)"] {
        let mut x = h.clone();
        x[..4].copy_from_slice(&keccak256(f)[..4]);
        v.push(("another function", x));
    }
    v
}

/// One step of a hint history.
#[derive(Clone, Copy, Debug)]
struct HintCall {
    input: usize,
    /// 0..4: CALL, CALLCODE, DELEGATECALL, STATICCALL to the oracle; 4: CALL to another contract
    kind: u8,
    value: u64,
    /// gas given to the call
    gas: u64,
}
fn hint_code(seq: &[HintCall], inputs: &[(&str, Vec<u8>)], inner: Option<u8>) -> Vec<u8> {
    let mut a = Asm::default();
    for c in seq {
        let d = &inputs[c.input].1;
        a = a.mem(0, d).push(0).push(0).push(d.len() as u64).push(0);
        let (op, to) = match c.kind {
            0 => (0xf1, ORACLE),
            1 => (0xf2, ORACLE),
            2 => (0xf4, ORACLE),
            3 => (0xfa, ORACLE),
            4 => (0xf1, C),
            _ => (0xf1, HP_TIMESTAMP),
        };
        if op == 0xf1 || op == 0xf2 {
            a = a.push(c.value);
        }
        a = a.push_addr(to).push(c.gas).op(op).push(1).op(0x55);
        // a read of the oracle through a plain call
        if let Some(n) = inner {
            a = a.push(n as u64).push(0).op(0x53).push(0).push(0).push(1).push(0).push_addr(ORACLE).push(u64::MAX).op(0xfa).op(0x50);
        }
    }
    a.op(0).build()
}
fn hint_world(code: &[u8], oracle: &[u8]) -> World {
    let mut w = base_world();
    w.set(A, 1000, 1, code);
    w.set(B, 1000, 1, code);
    w.set(C, 0, 1, &[0]);
    w.set(ORACLE, 0, 1, oracle);
    w.set(HP_TIMESTAMP, 0, 1, &[0]);
    w.set(SYSTEM_ADDR, 0, 4, &[]);
    w
}
/// Oracle stand-ins: the published code, code that reads a slot, code that reverts.
fn oracle_codes() -> Vec<Vec<u8>> {
    vec![
        mega_evm::ORACLE_CONTRACT_CODE_REX2.to_vec(),
        Asm::default().push(5).op(0x54).push(0).op(0x52).push(32).push(0).op(0xf3).build(),
        Asm::default().push(5).op(0x54).op(0x50).push(0).push(0).op(0xfd).build(),
        vec![],
    ]
}

fn check_hints(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction) -> CaseResult {
    let db = McDb::new(w);
    let r = ref_run(&db, s, tx, IMPL);
    if r.result.is_err() || r.t.diverged || r.t.rejected || r.t.initial_oog {
        return Ok(Case::default());
    }
    let _ = run;
    let mut got: Vec<OracleEv> = vec![];
    for inspected in [false, true] {
        s.envs.oracle.trace.borrow_mut().clear();
        let ctx = mega_ctx(db.clone(), s);
        let m = if inspected {
            MegaEvm::new(ctx).with_inspector(revm::inspector::NoOpInspector).execute_transaction(unmark(tx))
        } else {
            MegaEvm::new(ctx).execute_transaction(unmark(tx))
        }
        .map_err(|e| Bad { what: format!("rejected {e:?}") })?;
        got = s.envs.oracle.trace.borrow().clone();
        let want = squash(&r.t.oracle_trace);
        let filtered = squash(&got);
        // reads by frames that ran out of gas are not predicted
        let (f, wnt): (Vec<_>, Vec<_>) = if r.t.oog {
            let only = |v: Vec<OracleEv>| v.into_iter().filter(|e| matches!(e, OracleEv::Hint(..))).collect::<Vec<_>>();
            (only(filtered), only(want))
        } else {
            (filtered, want)
        };
        ensure_eq!(squash(&f), squash(&wnt), "what the oracle service sees (inspected: {inspected})");
        let Ok((rr, rs)) = &r.result else { unreachable!() };
        if !r.t.oog && !r.t.uncertain {
            ensure_eq!(obs(&m.result).res, obs(rr).res, "result");
            ensure_eq!(obs(&m.result).logs, obs(rr).logs, "logs");
            ensure_eq!(post_world(w, &m.state), post_world(w, rs), "state");
            ensure_eq!(obs(&m.result).gas_used, r.t.gas_used(floor_gas(rank(s.spec), tx), 0), "gas used");
        }
    }
    Ok(Case { state: hash_dbg(&got), transitions: r.t.steps, traces: 2 })
}

pub fn c12(run: &Run) {
    let inputs = hint_inputs();
    let codes = oracle_codes();
    // every input x kind x value x gas, directly and from a contract
    let specs = REX_SPECS;
    let gases = [u64::MAX, 0, 60, 2_000];
    let mut cases = vec![];
    for spec in specs {
        for oc in 0..codes.len() {
            for input in 0..inputs.len() {
                for kind in 0..6u8 {
                    for value in [0u64, 1, 5_000] {
                        if value > 0 && kind > 1 {
                            continue;
                        }
                        for gas in gases {
                            cases.push((spec, oc, HintCall { input, kind, value, gas }));
                        }
                    }
                }
            }
        }
    }
    run.space(
        "single calls",
        "spec x code at the oracle x input shape x call kind x value x gas",
        cases.len() as u64,
        |i| format!("{:?} ({})", cases[i as usize], inputs[cases[i as usize].2.input].0),
        |i| {
            let (spec, oc, c) = cases[i as usize];
            let w = hint_world(&hint_code(&[c], &inputs, None), &codes[oc]);
            check_hints(run, &w, &with_oracle(Setup::new(spec).unlimited(), VALUES[2]), &tx_call(CALLER, A, vec![], 0))
        },
    );
    // transactions straight to the oracle and near it
    let mut direct = vec![];
    for spec in specs {
        for oc in 0..codes.len() {
            for input in 0..inputs.len() {
                for (from, to) in [(CALLER, ORACLE), (SYSTEM_ADDR, ORACLE), (CALLER, HP_TIMESTAMP), (CALLER, A)] {
                    for value in [0u64, 1] {
                        for gas in [HUGE_GAS, 100_000] {
                            direct.push((spec, oc, input, from, to, value, gas));
                        }
                    }
                }
            }
        }
    }
    run.space(
        "transactions",
        "spec x code at the oracle x input shape x sender and callee x value x gas limit",
        direct.len() as u64,
        |i| format!("{:?} ({})", direct[i as usize], inputs[direct[i as usize].2].0),
        |i| {
            let (spec, oc, input, from, to, value, gas) = direct[i as usize];
            if value > 0 && from == SYSTEM_ADDR {
                return Ok(Case::default());
            }
            let w = hint_world(&[0], &codes[oc]);
            let mut tx = with_gas(tx_call(from, to, inputs[input].1.clone(), value as u128), gas);
            if from == SYSTEM_ADDR {
                tx.deposit.source_hash = B256::repeat_byte(1);
                tx.base.nonce = 4;
                tx.base.gas_limit = HUGE_GAS;
            }
            check_hints(run, &w, &with_oracle(Setup::new(spec).unlimited(), VALUES[2]), &tx)
        },
    );
    // deep, repeated and long hints
    let mut far = vec![];
    for d in chain_depths(run) {
        for (kind, value) in [(CK::Call, 0), (CK::Call, 1), (CK::Delegate, 0), (CK::Static, 0), (CK::CallCode, 0)] {
            for (leaf, each) in [("hint", "none"), ("hint", "oracle"), ("oracle", "hint")] {
                for rev in [None, Some((0, 0xfdu8)), Some((d, 0xfd)), Some((d / 2 + 1, 0xfe))] {
                    if d > 100 && !run.thorough() && (kind != CK::Call || rev.is_some()) {
                        continue;
                    }
                    far.push((format!("depth {d} {kind:?} {leaf} {each} {rev:?}"), d, chain_code(kind, B, value, leaf, each, rev)));
                }
            }
        }
        let h = hint_input(9, &[3; 40]);
        let mut send = Asm::default();
        send = send.mem(0, &h).op(0x80).push(4).op(0x52);
        send = send.push(0).push(0).push(h.len() as u64).push(0).push(0).push_addr(ORACLE).push(u64::MAX).op(0xf1).op(0x50);
        far.push((format!("{d} hints"), d, repeat(d, send)));
    }
    for n in (0..=130usize).chain([255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10_000, 24_576, 50_000]) {
        let h = hint_input((n % 251) as u8, &vec![(n % 250) as u8 + 1; n]);
        let mut a = Asm::default().push(h.len() as u64).push(0).op(0x5f).op(0x39);
        // the hint follows the code
        let tail = |a: Asm| a.push(0).push(0).push(h.len() as u64).push(0).push(0).push_addr(ORACLE).push(u64::MAX).op(0xf1).push(1).op(0x55).op(0x00);
        let off = tail(a.clone()).code.len() as u64;
        a = Asm::default().push(h.len() as u64);
        let head = off + 1;
        a = a.op(0x60).op(head as u8).op(0x5f).op(0x39);
        let mut c = tail(a).build();
        assert_eq!(c.len() as u64, head);
        c.extend_from_slice(&h);
        far.push((format!("hint of {n} bytes"), 0, c));
    }
    let k2 = REX_SPECS.len() as u64;
    run.space(
        "chains and lengths",
        "hints at the bottom of a chain of calls or on every level, repeated hints, hints of 0 to 130 bytes and longer x code at the oracle, all specs",
        far.len() as u64 * k2 * 2,
        |i| format!("{} {:?} {}", far[(i / k2 / 2) as usize].0, REX_SPECS[(i % k2) as usize], i / k2 % 2),
        |i| {
            let (_, d, code) = &far[(i / k2 / 2) as usize];
            let s = with_oracle(Setup::new(REX_SPECS[(i % k2) as usize]).unlimited(), VALUES[2]);
            check_hints(run, &chain_world(code, &codes[(i / k2 % 2) as usize]), &s, &tx_call(CALLER, A, word(*d), 0))
        },
    );
    // sequences, nested under another call that may fail
    let pool: Vec<HintCall> = {
        let mut v = vec![];
        for (input, kind) in [(0, 0), (1, 0), (2, 0), (0, 3), (0, 2), (0, 1), (0, 4), (5, 0), (14, 0), (0, 5)] {
            v.push(HintCall { input, kind, value: 0, gas: u64::MAX });
        }
        v.push(HintCall { input: 0, kind: 0, value: 5_000, gas: u64::MAX });
        v.push(HintCall { input: 3, kind: 0, value: 1, gas: 60 });
        v
    };
    let len = run.pick(4, 5);
    let p = pool.len() as u64;
    let seqs: u64 = p.pow(len);
    let outers = 6u64;
    let ks = [MegaSpecId::REX1, MegaSpecId::REX2, MegaSpecId::REX4];
    let total = seqs * outers * ks.len() as u64;
    run.space(
        "sequences",
        &format!("all sequences of {len} calls over {p} shapes, each followed by an oracle read, run directly or under a call of each kind, a reverting call or a creation"),
        total,
        |i| format!("{i}"),
        |i| {
            let spec = ks[(i % 3) as usize];
            let outer = i / 3 % outers;
            let mut x = i / 3 / outers;
            let mut seq = vec![];
            for _ in 0..len {
                seq.push(pool[(x % p) as usize]);
                x /= p;
            }
            let body = hint_code(&seq, &inputs, Some(5));
            let s = with_oracle(Setup::new(spec).unlimited(), VALUES[2]);
            let mut w = hint_world(&body, &codes[1]);
            let wrap = |op: u8, end: &[u8]| {
                let mut a = Asm::default().push(0).push(0).push(0).push(0);
                if op == 0xf1 {
                    a = a.push(0);
                }
                a.push_addr(B).push(u64::MAX).op(op).op(0x50).ops(end).build()
            };
            let tx = match outer {
                0 => tx_call(CALLER, A, vec![], 0),
                1 => {
                    w.set(A, 1000, 1, &wrap(0xf1, &[0x00]));
                    tx_call(CALLER, A, vec![], 0)
                }
                2 => {
                    w.set(A, 1000, 1, &wrap(0xf4, &[0x5f, 0x5f, 0xfd]));
                    tx_call(CALLER, A, vec![], 0)
                }
                3 => {
                    w.set(A, 1000, 1, &wrap(0xfa, &[0xfe]));
                    tx_call(CALLER, A, vec![], 0)
                }
                4 => {
                    w.set(DELEG, 1000, 1, &delegation(B));
                    tx_call(CALLER, DELEG, vec![], 0)
                }
                _ => tx_create(CALLER, body, 0),
            };
            check_hints(run, &w, &s, &tx).map_err(|b| Bad { what: format!("{spec:?} outer {outer} {seq:?}: {}", b.what) })
        },
    );
}
