//! Enforcement of the per-transaction limits: for every program and every threshold at which a
//! limit can bite, the transaction must stop exactly at the first event that exceeds it.
use super::exec::*;
use crate::{common::*, ensure, ensure_eq, prog::*, reft::*, runner::*};
use mega_evm::{EvmTxRuntimeLimits, MegaHaltReason, MegaSpecId, MegaTransaction};
use revm::{context::result::ExecutionResult, primitives::TxKind};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
    Data,
    Kv,
    Compute,
    Growth,
}

pub fn no_limits() -> EvmTxRuntimeLimits {
    EvmTxRuntimeLimits::no_limits()
}

/// First event that exceeds a limit, with the limit in force there.
pub fn first_exceed(
    t: &RefTracker,
    l: &EvmTxRuntimeLimits,
    applied: bool,
    reverted_code: bool,
) -> Option<(usize, Which, u64)> {
    for (i, e) in t.evs.iter().enumerate() {
        if e.kind == EvKind::RevertedCode && !reverted_code {
            continue;
        }
        let mut cl = l.tx_compute_gas_limit;
        let (b, o) = if applied { (e.blk_applied, e.orc_applied) } else { (e.blk, e.orc) };
        if b {
            cl = cl.min(l.block_env_access_compute_gas_limit);
        }
        if o {
            cl = cl.min(l.oracle_access_compute_gas_limit);
        }
        if e.data > 0 && e.data as u64 > l.tx_data_size_limit {
            return Some((i, Which::Data, l.tx_data_size_limit));
        }
        if e.kv > 0 && e.kv as u64 > l.tx_kv_updates_limit {
            return Some((i, Which::Kv, l.tx_kv_updates_limit));
        }
        if e.compute > cl {
            return Some((i, Which::Compute, cl));
        }
        if e.growth > 0 && e.growth as u64 > l.tx_state_growth_limit {
            return Some((i, Which::Growth, l.tx_state_growth_limit));
        }
    }
    None
}

/// Known deviations in what a limit-stopped transaction leaves behind.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Part {
    Reason,
    Gas,
    State,
    Usage,
}

pub struct LimitCase<'a> {
    pub w: &'a World,
    pub s: Setup,
    pub tx: &'a MegaTransaction,
    pub t: &'a RefTracker,
}

/// State after a transaction all of whose execution effects are undone.
pub fn reverted_world(w: &World, s: &Setup, tx: &MegaTransaction) -> World {
    let mut w = w.clone();
    let c = w.accts.entry(tx.base.caller).or_default();
    c.nonce = c.nonce.saturating_add(1);
    if let Some(m) = tx.deposit.mint {
        if !tx.deposit.source_hash.is_zero() {
            c.balance += alloy_primitives::U256::from(m);
        }
    }
    apply_auths(&mut w, s, tx);
    w
}

pub fn apply_auths(w: &mut World, s: &Setup, tx: &MegaTransaction) {
    use alloy_primitives::U256;
    use revm::context_interface::transaction::AuthorizationTr;
    for a in &tx.base.authorization_list {
        let Some(who) = a.authority() else { continue };
        let cid = a.chain_id();
        if !cid.is_zero() && cid != U256::from(s.chain_id) {
            continue;
        }
        let acc = w.acct(who);
        if acc.nonce != a.nonce() || !(acc.code.is_empty() || acc.code.starts_with(&[0xef, 0x01, 0x00])) {
            continue;
        }
        let e = w.accts.entry(who).or_default();
        e.nonce += 1;
        if a.address().is_zero() {
            e.code = Default::default();
        } else {
            let mut c = vec![0xef, 0x01, 0x00];
            c.extend_from_slice(a.address().as_slice());
            e.code = c.into();
        }
    }
}

/// The transaction as it is handed to the implementation: the reference runs a transaction of the
/// system sender as the deposit it amounts to.
pub fn unmark(tx: &MegaTransaction) -> MegaTransaction {
    let mut t = tx.clone();
    if t.base.caller == SYSTEM_ADDR {
        t.deposit.source_hash = Default::default();
    }
    t
}

/// Runs one limit configuration and checks what the stop must look like.
/// Returns the number of executions.
pub fn check_limit_case(run: &Run, c: &LimitCase<'_>, parts: &[Part], full: Option<&Full>) -> Result<(), Bad> {
    let l = c.s.limits.unwrap();
    let db = McDb::new(c.w);
    let m = match mega_run(&db, &c.s, unmark(c.tx)) {
        Ok(m) => m,
        Err(e) => return bad(format!("limits {l:?}: rejected {e:?}")),
    };
    let om = obs(&m.result);
    let doc = first_exceed(c.t, &l, false, false);
    let imp = first_exceed(c.t, &l, true, true);
    let deposit = !c.tx.deposit.source_hash.is_zero();
    let stopped = match &m.result {
        ExecutionResult::Halt { .. } if deposit => true,
        ExecutionResult::Halt { reason, .. } => is_limit_halt(reason),
        _ => false,
    };
    // ---- which event stops the transaction
    let verdict = |e: &Option<(usize, Which, u64)>| -> Result<(), Bad> {
        match e {
            None => {
                ensure!(!stopped || deposit, "limits {l:?}: stopped with {:?} though no limit is exceeded", om.res);
                if let Some(f) = full {
                    ensure_eq!(om, f.obs, "limits {l:?}: outcome differs from the unlimited run");
                    ensure_eq!(post_world(c.w, &m.state), f.post, "limits {l:?}: state differs from the unlimited run");
                }
                Ok(())
            }
            Some((i, which, lim)) => {
                let ev = &c.t.evs[*i];
                ensure!(stopped, "limits {l:?}: not stopped ({:?}) though event {i} exceeds {which:?} ({ev:?})", om.res);
                let ExecutionResult::Halt { reason, .. } = &m.result else { unreachable!() };
                // lowest limit implied by the volatile data accessed
                let vol = {
                    let mut v = None;
                    if ev.blk {
                        v = Some(l.block_env_access_compute_gas_limit);
                    }
                    if ev.orc {
                        v = Some(v.unwrap_or(u64::MAX).min(l.oracle_access_compute_gas_limit));
                    }
                    v
                };
                let want = match (which, vol) {
                    (_, Some(v)) if ev.compute > v => format!(
                        "VolatileDataAccessOutOfGas {} {v} {}",
                        ev.access, ev.compute
                    ),
                    (Which::Compute, _) => format!("Compute {lim} {}", ev.compute),
                    (Which::Data, _) => format!("Data {lim} {}", ev.data),
                    (Which::Kv, _) => format!("Kv {lim} {}", ev.kv),
                    (Which::Growth, _) => format!("Growth {lim} {}", ev.growth),
                };
                let got = reason_text(reason);
                if deposit {
                    // a deposit can only fail as a whole
                    ensure_eq!(om.res, Res::Halt("FailedDeposit".into()), "limits {l:?}: failed deposit");
                } else if parts.contains(&Part::Reason) && tied(ev, c.t.evs.get(i + 1), &l).iter().any(|t| *t != want && *t == got) {
                    // one event crosses several limits: any of them may be named
                } else if parts.contains(&Part::Reason) {
                    ensure_eq!(got, want, "limits {l:?}: halt reason (event {i} {:?})", ev.kind);
                }
                if parts.contains(&Part::Usage) {
                    ensure_eq!(m.compute_gas_used, ev.compute, "limits {l:?}: compute gas at the stop (event {i})");
                }
                Ok(())
            }
        }
    };
    let used = match verdict(&doc) {
        Ok(()) => doc,
        Err(e) => {
            if doc == imp {
                return Err(e);
            }
            verdict(&imp)?;
            let reverted = first_exceed(c.t, &l, false, true);
            if reverted != doc && verdict(&reverted).is_ok() {
                run.known("reverted_create_output_counted", format!("{:?}", c.s.spec))?;
            } else {
                run.known("beneficiary_access_not_enforced_at_once", format!("{:?}", c.s.spec))?;
            }
            imp
        }
    };
    let Some((i, _, _)) = used else { return Ok(()) };
    let ev = &c.t.evs[i];
    // ---- remaining gas is preserved
    if parts.contains(&Part::Gas) {
        let floor = floor_gas(rank(c.s.spec), c.tx);
        let ar = auth_refund(c.w, &c.s, c.tx) as u64;
        let fee = |spent: u64| (spent - ar.min(spent / 5)).max(floor).min(c.tx.base.gas_limit);
        let want = if deposit { c.tx.base.gas_limit } else { fee(ev.spent) };
        if om.gas_used != want {
            let lost = fee(ev.spent + ev.in_flight_uncapped);
            // the same stop, one event later
            let later = match imp {
                Some((j, _, _)) if j > i && c.t.evs[j].compute == ev.compute && !deposit => Some(fee(c.t.evs[j].spent)),
                _ => None,
            };
            if ev.in_flight > 0 && om.gas_used == lost {
                run.known("forwarded_gas_lost_at_limit", format!("{:?}", c.s.spec))?;
            } else if later == Some(om.gas_used) {
                run.known("beneficiary_access_not_enforced_at_once", format!("{:?}", c.s.spec))?;
            } else {
                return bad(format!(
                    "limits {l:?}: gas used {} expected {want} at event {i} {ev:?}",
                    om.gas_used
                ));
            }
        }
    }
    // ---- nothing but the transaction-level effects remains
    if parts.contains(&Part::State) {
        ensure!(om.logs.is_empty(), "limits {l:?}: logs survive the stop");
        let want = reverted_world(c.w, &c.s, c.tx);
        let got = post_world(c.w, &m.state);
        let create = matches!(c.tx.base.kind, TxKind::Create);
        let (d, k) = initial_resources(c.tx);
        let got_usage = (m.data_size, m.kv_updates, m.state_growth_used);
        let want_usage = (d as u64, k as u64, 0);
        // the whole transaction is the one precompile call / the one creation
        let last = c.t.evs[i..].iter().all(|e| e.kind == EvKind::Leave || e.kind == ev.kind);
        let survives = match ev.kind {
            EvKind::Deposit if create && last => Some("create_survives_deposit_limit"),
            EvKind::Precompile if last && c.t.evs[..i].iter().all(|e| matches!(e.kind, EvKind::Init | EvKind::Call)) => {
                Some("precompile_call_survives_limit")
            }
            _ => None,
        };
        if got != want || got_usage != want_usage {
            if create && matches!(ev.kind, EvKind::Init | EvKind::Create) && got_usage == want_usage && {
                let mut w2 = want.clone();
                w2.accts.get_mut(&c.tx.base.caller).unwrap().nonce -= 1;
                w2 == got
            } {
                run.known("create_tx_stopped_early_keeps_nonce", format!("{:?}", c.s.spec))?;
            } else if survives.is_some() && full.is_some_and(|f| (f.post == got || deposit && want == got) && (f.usage == got_usage || (create && want_usage == got_usage))) {
                run.known(survives.unwrap(), format!("{:?}", c.s.spec))?;
            } else {
                return bad(format!(
                    "limits {l:?}: after the stop at event {i} {ev:?} usage is {got_usage:?}, expected {want_usage:?}; state is {got:?}, expected {want:?}"
                ));
            }
        }
    }
    Ok(())
}

/// The reasons that can be given for stopping at an event.
fn tied(ev: &Ev, next: Option<&Ev>, l: &EvmTxRuntimeLimits) -> Vec<String> {
    let mut v = vec![];
    // who sends and receives is known before the first event is counted
    if let (EvKind::Init, Some(n)) = (&ev.kind, next) {
        let lim = (if n.blk { l.block_env_access_compute_gas_limit } else { u64::MAX })
            .min(if n.orc { l.oracle_access_compute_gas_limit } else { u64::MAX });
        if ev.compute > lim {
            v.push(format!("VolatileDataAccessOutOfGas {} {lim} {}", n.access, ev.compute));
        }
    }
    let mut add = |name: &str, used: i128, limit: u64| {
        if used > limit as i128 {
            v.push(format!("{name} {limit} {used}"));
        }
    };
    add("Data", ev.data as i128, l.tx_data_size_limit);
    add("Kv", ev.kv as i128, l.tx_kv_updates_limit);
    add("Compute", ev.compute as i128, l.tx_compute_gas_limit);
    add("Growth", ev.growth as i128, l.tx_state_growth_limit);
    v
}

pub fn reason_text(r: &MegaHaltReason) -> String {
    match r {
        MegaHaltReason::DataLimitExceeded { limit, actual } => format!("Data {limit} {actual}"),
        MegaHaltReason::KVUpdateLimitExceeded { limit, actual } => format!("Kv {limit} {actual}"),
        MegaHaltReason::ComputeGasLimitExceeded { limit, actual } => {
            format!("Compute {limit} {actual}")
        }
        MegaHaltReason::StateGrowthLimitExceeded { limit, actual } => {
            format!("Growth {limit} {actual}")
        }
        MegaHaltReason::VolatileDataAccessOutOfGas { access_type, limit, actual } => {
            format!("VolatileDataAccessOutOfGas {} {limit} {actual}", access_type.bits())
        }
        x => format!("{x:?}"),
    }
}

/// The unlimited outcome.
pub struct Full {
    pub obs: Obs,
    pub post: World,
    pub usage: (u64, u64, u64),
}

/// All thresholds that separate two consecutive running maxima of a dimension.
pub fn thresholds(t: &RefTracker, f: impl Fn(&Ev) -> i128) -> Vec<u64> {
    let mut set = BTreeSet::new();
    let mut max = 0i128;
    for e in &t.evs {
        let v = f(e);
        if v > max {
            if v > 0 {
                set.insert((v - 1) as u64);
                set.insert(max as u64);
            }
            max = v;
        }
    }
    set.insert(max.max(0) as u64);
    set.into_iter().collect()
}

fn ths_of(t: &RefTracker, wh: Which) -> Vec<u64> {
    match wh {
        Which::Data => thresholds(t, |e| e.data as i128),
        Which::Kv => thresholds(t, |e| e.kv as i128),
        Which::Compute => {
            // the value before the event makes no difference to the one just below it
            let all = thresholds(t, |e| e.compute as i128);
            let vals: BTreeSet<u64> = t.evs.iter().map(|e| e.compute).collect();
            let max = all.last().copied();
            all.into_iter().filter(|v| !vals.contains(v) || Some(*v) == max || *v == 0).collect()
        }
        Which::Growth => thresholds(t, |e| e.growth as i128),
    }
}
fn set_limit(l: &mut EvmTxRuntimeLimits, wh: Which, th: u64) {
    match wh {
        Which::Data => l.tx_data_size_limit = th,
        Which::Kv => l.tx_kv_updates_limit = th,
        Which::Compute => l.tx_compute_gas_limit = th,
        Which::Growth => l.tx_state_growth_limit = th,
    }
}

/// Every pair of limits, every pair of thresholds.
fn sweep_pairs(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction) -> CaseResult {
    let db = McDb::new(w);
    let r = ref_run(&db, s, tx, IMPL);
    if r.result.is_err() || r.t.diverged {
        return Ok(Case::default());
    }
    let m = match mega_run(&db, &s.clone().unlimited(), unmark(tx)) {
        Ok(m) => m,
        Err(_) => return Ok(Case::default()),
    };
    let full = Full { obs: obs(&m.result), post: post_world(w, &m.state), usage: (m.data_size, m.kv_updates, m.state_growth_used) };
    let all = [Which::Data, Which::Kv, Which::Growth, Which::Compute];
    let mut n = 0;
    for (i, a) in all.iter().enumerate() {
        for b in &all[i + 1..] {
            for ta in ths_of(&r.t, *a) {
                for tb in ths_of(&r.t, *b) {
                    let mut l = no_limits();
                    set_limit(&mut l, *a, ta);
                    set_limit(&mut l, *b, tb);
                    let mut s2 = s.clone();
                    s2.limits = Some(l);
                    n += 1;
                    check_limit_case(run, &LimitCase { w, s: s2, tx, t: &r.t }, &[Part::Reason, Part::Gas, Part::State, Part::Usage], Some(&full))?;
                }
            }
        }
    }
    Ok(Case { state: hash_dbg(&(&full.obs, n, r.t.compute)), transitions: n, traces: n })
}

pub fn sweep(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction, which: &[Which], parts: &[Part]) -> CaseResult {
    sweep_some(run, w, s, tx, which, parts, usize::MAX)
}
/// At most `most` thresholds per limit, evenly spread and with both ends.
fn sweep_some(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction, which: &[Which], parts: &[Part], most: usize) -> CaseResult {
    let db = McDb::new(w);
    let r = ref_run(&db, s, tx, IMPL);
    if r.result.is_err() || r.t.diverged {
        return Ok(Case::default());
    }
    let m = match mega_run(&db, &s.clone().unlimited(), unmark(tx)) {
        Ok(m) => m,
        Err(_) => return Ok(Case::default()),
    };
    let full = Full { obs: obs(&m.result), post: post_world(w, &m.state),
        usage: (m.data_size, m.kv_updates, m.state_growth_used),
    };
    let mut n = 0;
    for wh in which {
        let ths = ths_of(&r.t, *wh);
        let len = ths.len();
        for (i, th) in ths.into_iter().enumerate() {
            let edge = i < 3 || i + 3 >= len;
            if len > most && !edge && i % len.div_ceil(most) != 0 {
                continue;
            }
            let mut l = no_limits();
            set_limit(&mut l, *wh, th);
            let mut s2 = s.clone();
            s2.limits = Some(l);
            n += 1;
            check_limit_case(run, &LimitCase { w, s: s2, tx, t: &r.t }, parts, Some(&full))?;
        }
    }
    Ok(Case { state: hash_dbg(&(&full.obs, n, r.t.compute)), transitions: n, traces: n })
}

/// Alphabet for limit sweeps: everything that charges or discards a resource.
pub fn limit_alphabet() -> Alphabet {
    let call = |kind, to, value, gas| Op::Call { kind, to, value, gas, body: None };
    Alphabet {
        leaves: vec![
            Op::Sstore(1, 7),
            Op::Sstore(1, 0),
            Op::Sstore(5, 0),
            Op::Log(2, 33),
            Op::Raw("keccak+mem", vec![0x61, 0x01, 0x00, 0x5f, 0x20, 0x50]),
            call(CK::Call, NONE, 1, G::All),
            call(CK::Call, EOA, 1, G::Lim(0)),
            call(CK::Static, id_addr(), 0, G::All),
            call(CK::Call, id_addr(), 1, G::Lim(500)),
        ],
        calls: vec![
            call(CK::Call, B, 0, G::All),
            call(CK::Call, B, 1, G::Lim(1_000_000_000)),
            call(CK::Delegate, B, 0, G::All),
        ],
        creates: vec![
            Op::Create { two: false, value: 0, init: Body::new(vec![], End::Stop) },
            Op::Create { two: true, value: 3, init: Body::new(vec![], End::Stop) },
        ],
        call_ends: vec![End::Stop, End::Revert, End::Invalid],
        init_ends: vec![End::Return(3), End::RevertN(40), End::ReturnEf(2), End::Stop],
        top_ends: vec![End::Stop, End::Revert],
        max_depth: 3,
    }
}

fn limit_space(run: &Run, which: &'static [Which], parts: &'static [Part]) {
    let al = limit_alphabet();
    let n = run.pick(2, 3);
    let setups: Vec<(MegaSpecId, u64)> = run.pick(
        vec![(MegaSpecId::MINI_REX, 256), (MegaSpecId::REX, 256), (MegaSpecId::REX2, 512), (MegaSpecId::REX4, 256)],
        vec![(MegaSpecId::MINI_REX, 256), (MegaSpecId::REX1, 256), (MegaSpecId::REX4, 512)],
    );
    let k = setups.len() as u64;
    run.space(
        "programs x thresholds",
        &format!("all program trees with <= {n} nodes x every threshold of {which:?} that separates two events"),
        al.total(n) * k,
        |i| format!("{:?} {:?}", al.at(n, i / k), setups[(i % k) as usize]),
        |i| {
            let p = al.at(n, i / k);
            let (spec, cap) = setups[(i % k) as usize];
            let w = prog_world(&p, false);
            let s = Setup::new(spec).unlimited().salt(cap);
            sweep(run, &w, &s, &tx_call(CALLER, A, vec![], 0), which, parts)
        },
    );
    if !run.thorough() {
        let mut al = limit_alphabet();
        al.call_ends = vec![End::Stop, End::Revert];
        al.init_ends = vec![End::Return(3), End::RevertN(40)];
        al.top_ends = vec![End::Stop];
        run.space(
            "larger programs x thresholds",
            "all program trees with <= 3 nodes and fewer ways to end x every threshold, REX4",
            al.total(3),
            |i| format!("{:?}", al.at(3, i)),
            |i| {
                let w = prog_world(&al.at(3, i), false);
                let s = Setup::new(MegaSpecId::REX4).unlimited();
                sweep(run, &w, &s, &tx_call(CALLER, A, vec![], 0), which, parts)
            },
        );
    }
    let ex = extremes(run.thorough());
    let most = run.pick(8, 60);
    let specs = run.pick(vec![MegaSpecId::MINI_REX, MegaSpecId::REX4], REX_SPECS.to_vec());
    let k = specs.len() as u64;
    run.space(
        "extremes x thresholds",
        &format!("deep chains, long repetitions and large numbers x up to {most} thresholds each"),
        ex.len() as u64 * k,
        |i| format!("{} {:?}", ex[(i / k) as usize].desc, specs[(i % k) as usize]),
        |i| {
            let x = &ex[(i / k) as usize];
            let s = Setup::new(specs[(i % k) as usize]).unlimited().salt(x.cap.unwrap_or(512));
            sweep_some(run, &x.world, &s, &x.tx, which, parts, most)
        },
    );
    let shapes = tx_shapes();
    let k = SETUPS.len() as u64;
    run.space(
        "transaction shapes x thresholds",
        "every transaction shape x every threshold, all specs",
        shapes.len() as u64 * k,
        |i| format!("{} {:?}", shapes[(i / k) as usize].desc, SETUPS[(i % k) as usize]),
        |i| {
            let sh = &shapes[(i / k) as usize];
            if sh.tx.base.caller == COINBASE || sh.tx.base.kind == TxKind::Call(COINBASE) {
                return Ok(Case::default());
            }
            let (spec, cap) = SETUPS[(i % k) as usize];
            let s = Setup::new(spec).unlimited().salt(cap);
            sweep(run, &sh.world, &s, &sh.tx, which, parts)
        },
    );
}

pub fn c03(run: &Run) {
    limit_space(run, &[Which::Compute], &[Part::Reason, Part::Gas, Part::State, Part::Usage]);
}
fn pairs(run: &Run) {
    let al = limit_alphabet();
    let n = run.pick(1, 2);
    let setups = [(MegaSpecId::MINI_REX, 256), (MegaSpecId::REX, 256), (MegaSpecId::REX4, 512)];
    let k = setups.len() as u64;
    run.space(
        "programs x pairs of limits",
        &format!("all program trees with <= {n} nodes x every pair of limits x every pair of thresholds"),
        al.total(n) * k,
        |i| format!("{:?} {:?}", al.at(n, i / k), setups[(i % k) as usize]),
        |i| {
            let p = al.at(n, i / k);
            let (spec, cap) = setups[(i % k) as usize];
            let s = Setup::new(spec).unlimited().salt(cap);
            sweep_pairs(run, &prog_world(&p, false), &s, &tx_call(CALLER, A, vec![], 0))
        },
    );
}
pub fn c07(run: &Run) {
    pairs(run);
    limit_space(
        run,
        &[Which::Data, Which::Kv, Which::Growth],
        &[Part::Reason, Part::Gas, Part::State, Part::Usage],
    );
}
