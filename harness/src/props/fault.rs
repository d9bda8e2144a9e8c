//! Failures of the database and of the bucket-capacity service (C28).
use super::hist::{hist_limits, hist_world, tx_kinds};
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use mega_evm::{MegaEvm, MegaSpecId, MegaTransaction, MegaTransactionOutcome};
use revm::{context::result::EVMError, inspector::NoOpInspector};
use std::panic::{catch_unwind, AssertUnwindSafe};

type E = MegaEvm<McDb, NoOpInspector, McEnvs>;

#[derive(Clone, Debug, PartialEq, Eq)]
struct Out {
    res: Result<Obs, String>,
    post: World,
    usage: (u64, u64, u64, u64),
}
fn out(w: &World, r: &Result<MegaTransactionOutcome, MegaErr>) -> Out {
    match r {
        Ok(m) => Out {
            res: Ok(obs(&m.result)),
            post: post_world(w, &m.state),
            usage: (m.compute_gas_used, m.data_size, m.kv_updates, m.state_growth_used),
        },
        Err(e) => Out { res: Err(format!("{e:?}")), post: w.clone(), usage: (0, 0, 0, 0) },
    }
}

#[derive(Clone, Debug)]
enum Fault {
    /// the n-th read of the database fails once
    Once(u64),
    /// it and all later ones fail
    From(u64),
    /// lookups of this bucket fail
    Bucket(u32),
}

fn check(run: &Run, w: &World, s: &Setup, tx: &MegaTransaction, inspected: bool, after: &[MegaTransaction]) -> CaseResult {
    let make = |s: &Setup, db: McDb| -> E {
        let e = MegaEvm::new(mega_ctx(db, s));
        if inspected {
            e.with_inspector(NoOpInspector)
        } else {
            e
        }
    };
    let setup = || {
        let mut t = s.clone();
        t.envs = McEnvs::default();
        t.envs.salt = McSalt::uniform(s.envs.salt.default_cap);
        t
    };
    let mut h = vec![];
    let mut n = 1;
    // without failures
    let db = McDb::new(w);
    let s0 = setup();
    let mut e = make(&s0, db.clone());
    let clean = out(w, &e.execute_transaction(tx.clone()));
    let reads = e.ctx.journaled_state.database.reads;
    let buckets: std::collections::BTreeSet<u32> = s0.envs.salt.lookups.borrow().iter().copied().collect();
    // code that is fetched by hash
    let mut db2 = db.clone();
    db2.inline_code = false;
    let mut e = make(&setup(), db2.clone());
    let by_hash = out(w, &e.execute_transaction(tx.clone()));
    ensure_eq!(by_hash, clean, "code fetched by its hash");
    let reads2 = e.ctx.journaled_state.database.reads;
    n += 1;
    let mut faults: Vec<(bool, Fault)> = vec![];
    for k in 0..reads {
        faults.push((true, Fault::Once(k)));
        faults.push((true, Fault::From(k)));
    }
    for k in 0..reads2 {
        faults.push((false, Fault::Once(k)));
    }
    for b in &buckets {
        faults.push((true, Fault::Bucket(*b)));
    }
    let next: Vec<Out> = after
        .iter()
        .map(|t| out(w, &make(&setup(), db.clone()).execute_transaction(t.clone())))
        .collect();
    for (inline, f) in faults {
        let sf = setup();
        let mut d = if inline { db.clone() } else { db2.clone() };
        match f {
            Fault::Once(k) => d.fail_at = Some(k),
            Fault::From(k) => {
                d.fail_at = Some(k);
                d.fail_rest = true;
            }
            Fault::Bucket(b) => {
                sf.envs.salt.fail.borrow_mut().insert(b);
            }
        }
        let mut e = make(&sf, d);
        n += 1;
        let r = match catch_unwind(AssertUnwindSafe(|| e.execute_transaction(tx.clone()))) {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                return bad(format!("{f:?} (code inline: {inline}): panic: {m}"));
            }
        };
        match &r {
            Ok(m) => return bad(format!("{f:?} (code inline: {inline}): no error but {:?}; without failure {:?}", obs(&m.result), clean.res)),
            Err(EVMError::Database(_)) if !matches!(f, Fault::Bucket(_)) => {}
            Err(EVMError::Transaction(x)) => return bad(format!("{f:?} (code inline: {inline}): transaction reported invalid: {x:?}")),
            Err(EVMError::Custom(_)) => {}
            Err(x) => return bad(format!("{f:?} (code inline: {inline}): {x:?}")),
        }
        h.push(format!("{:?}", r.err()));
        // the service works again: the next transaction
        for (t, want) in after.iter().zip(&next) {
            sf.envs.salt.fail.borrow_mut().clear();
            let mut d = db.clone();
            d.reads = 0;
            e.ctx.journaled_state.database = d;
            n += 1;
            let got = out(w, &e.execute_transaction(t.clone()));
            ensure_eq!(got, *want, "transaction after {f:?} (code inline: {inline})");
        }
    }
    let _ = run;
    Ok(Case { state: hash_dbg(&(h, clean.res)), transitions: n, traces: n })
}

pub fn c28(run: &Run) {
    let kinds = tx_kinds();
    let specs = ALL_SPECS;
    let (k, m) = (specs.len() as u64, kinds.len() as u64);
    run.space(
        "kinds of transactions",
        &format!("{m} kinds of transactions x 7 specs x limited or not x inspector x a failure at every database read (once and from there on, code inline or by hash) and of every bucket; then the same and three other transactions on the same EVM"),
        m * k * 4,
        |i| format!("{} {:?} limits {} inspector {}", kinds[(i / k / 4) as usize].0, specs[(i / 4 % k) as usize], i % 2, i / 2 % 2),
        |i| {
            let (_, tx) = &kinds[(i / k / 4) as usize];
            let mut s = Setup::new(specs[(i / 4 % k) as usize]).salt(512);
            s.limits = Some(if i % 2 == 0 { hist_limits() } else { mega_evm::EvmTxRuntimeLimits::no_limits() });
            let w = hist_world();
            let after = [tx.clone(), kinds[0].1.clone(), kinds[4].1.clone(), kinds[m as usize - 1].1.clone()];
            check(run, &w, &s, tx, i / 2 % 2 == 1, &after)
        },
    );
    // programs: every read of every program fails
    let a = super::exec::general(false);
    let n = run.pick(2, 3);
    let per = a.total(n);
    let sp = [MegaSpecId::EQUIVALENCE, MegaSpecId::MINI_REX, MegaSpecId::REX1, MegaSpecId::REX4];
    run.space(
        "programs",
        &format!("all programs of up to {n} operations of the general alphabet x 4 specs x a failure at every database read and of every bucket, then a transaction on the same EVM"),
        per * 4,
        |i| format!("{:?} {:?}", sp[(i / per) as usize], a.at(n, i % per)),
        |i| {
            let spec = sp[(i / per) as usize];
            let b = a.at(n, i % per);
            let w = prog_world(&b, false);
            let mut s = Setup::new(spec).salt(512);
            s.limits = Some(mega_evm::EvmTxRuntimeLimits::no_limits());
            let tx = with_gas(tx_call(CALLER, A, vec![], 0), 30_000_000);
            check(run, &w, &s, &tx, i % 2 == 1, std::slice::from_ref(&tx))
        },
    );
    super::block::faults(run);
}
