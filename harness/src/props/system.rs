//! Mega system transactions (C15).
use super::equiv::*;
use crate::{common::*, ensure, ensure_eq, prog::*, reft::*, runner::*};
use alloy_primitives::{Address, B256, U256};
use mega_evm::{
    check_if_mega_system_transaction, is_deposit_like_transaction, is_mega_system_transaction,
    sent_from_mega_system_address, MegaEvm, MegaSpecId, MegaTransaction,
};
use revm::{context::CfgEnv, primitives::TxKind};

fn near(a: Address) -> Address {
    let mut b = a.into_array();
    b[19] ^= 1;
    b.into()
}

#[derive(Clone, Debug)]
struct SysCase {
    spec: MegaSpecId,
    sender: Address,
    kind: TxKind,
    ty: u8,
    price: u128,
    basefee: u64,
    value: u128,
    /// relative to the account's nonce
    nonce: i64,
    chain: Option<u64>,
    balance: u128,
    gas: u64,
    l1: usize,
    prog: usize,
}

const SENDERS: [fn() -> Address; 3] = [|| SYSTEM_ADDR, || CALLER, || near(SYSTEM_ADDR)];
const KINDS: [fn() -> TxKind; 7] = [
    || TxKind::Call(ORACLE),
    || TxKind::Call(A),
    || TxKind::Create,
    || TxKind::Call(near(ORACLE)),
    || TxKind::Call(KEYLESS),
    || TxKind::Call(HP_TIMESTAMP),
    || TxKind::Call(SYSTEM_ADDR),
];
const TYPES: [u8; 5] = [0, 1, 2, 4, 0x7e];

/// mixed-radix decoding
fn digits(mut i: u64, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = (i % *r as u64) as usize;
            i /= *r as u64;
            d
        })
        .collect()
}

fn sys_world(c: &SysCase) -> World {
    let mut w = base_world();
    let (cfg_a, cfg_b, cfg_c, cfg_d) = L1_CFGS[c.l1];
    set_l1(&mut w, cfg_a, cfg_b, cfg_c, cfg_d);
    w.set(c.sender, c.balance, 4, &[]);
    let code = match c.prog {
        0 => Asm::default().sstore(1, 7).push(1).push(0).push(0).op(0xa1).op(0).build(),
        1 => Asm::default().sstore(1, 7).push(3).push(0).op(0xfd).build(),
        _ => Asm::default().sstore(1, 7).op(0xfe).build(),
    };
    for a in [ORACLE, A, near(ORACLE), KEYLESS, HP_TIMESTAMP] {
        w.set(a, 0, 1, &code);
    }
    w
}
fn sys_tx(c: &SysCase) -> MegaTransaction {
    let mut t = tx_call(c.sender, ORACLE, vec![], c.value);
    t.base.kind = c.kind;
    if c.kind == TxKind::Create {
        t.base.data = Asm::default().push(3).push(0).op(0xf3).build().into();
    } else {
        t.base.data = vec![0, 1, 2].into();
    }
    t.enveloped_tx = Some(vec![0xf8; 120].into());
    t.base.nonce = (4 + c.nonce) as u64;
    t.base.chain_id = c.chain;
    t.base.gas_price = c.price;
    t.base.gas_limit = c.gas;
    match c.ty {
        0x7e => {
            t.deposit.source_hash = B256::repeat_byte(9);
            t.deposit.mint = Some(11);
            // deposits carry no gas price
            t.base.gas_price = 0;
        }
        ty => {
            t.base.tx_type = ty;
            if ty == 4 {
                t.base.authorization_list = super::exec::auths(1);
            }
            if ty >= 2 {
                t.base.gas_priority_fee = Some(c.price);
            }
            if ty == 1 {
                t.base.access_list = vec![revm::context::transaction::AccessListItem {
                    address: A,
                    storage_keys: vec![B256::with_last_byte(5)],
                }]
                .into();
            }
        }
    }
    t
}

fn check(c: &SysCase) -> CaseResult {
    let w = sys_world(c);
    let mut s = Setup::new(c.spec);
    s.block.basefee = c.basefee;
    let tx = sys_tx(c);
    let db = McDb::new(&w);
    if c.spec == MegaSpecId::EQUIVALENCE {
        return equiv_cfg(&w, &s, &tx, &CfgOpts::default());
    }
    let opts = CfgOpts { code_size: Some(512 * 1024), initcode_size: Some(536 * 1024), ..Default::default() };
    let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(s.spec);
    cfg.chain_id = s.chain_id;
    apply_cfg(&mut cfg, &opts);
    let m = MegaEvm::new(mega_ctx(db.clone(), &s).with_cfg(cfg)).execute_transaction(tx.clone());
    if c.sender == SYSTEM_ADDR {
        let is_system = c.ty == 0 && c.kind == TxKind::Call(ORACLE);
        if !is_system {
            return match m {
                Err(e) => {
                    ensure!(format!("{e:?}").contains("whitelist"), "rejected for another reason: {e:?}");
                    Ok(Case { state: 1, transitions: 1, traces: 1 })
                }
                Ok(m) => bad(format!("a transaction of the system address outside the definition was executed: {:?}", m.result)),
            };
        }
        // the reference is a deposit
        let mut dep = tx.clone();
        dep.deposit.source_hash = B256::repeat_byte(1);
        dep.base.gas_price = 0;
        let (rr, rs) = op_run_cfg(&db, &s, &dep, &opts).map_err(|e| Bad { what: format!("reference rejects {e}") })?;
        let m = m.map_err(|e| Bad { what: format!("system transaction rejected: {e:?}") })?;
        let (a, b) = (obs(&m.result), obs(&rr));
        ensure_eq!((&a.res, &a.logs), (&b.res, &b.logs), "result");
        ensure_eq!(post_world(&w, &m.state), post_world(&w, &rs), "post state");
        let post = post_world(&w, &m.state);
        ensure_eq!(post.nonce(SYSTEM_ADDR), 5, "nonce of the system address");
        ensure_eq!(post.total_balance(), w.total_balance(), "balances");
        for v in [COINBASE, L1_VAULT, BASE_VAULT, OPERATOR_VAULT] {
            ensure_eq!(post.balance(v), w.balance(v), "a vault or the beneficiary changed");
        }
        // gas: standard plus storage gas, computed by the reference tracker
        let r = ref_run(&db, &s, &dep, IMPL);
        if !matches!(a.res, Res::Halt(_)) {
            ensure_eq!(a.gas_used, r.t.gas_used(super::exec::floor_gas(rank(c.spec), &dep), 0), "gas used");
        } else {
            ensure_eq!(a.gas_used, c.gas, "gas used of a failing system transaction");
        }
        return Ok(Case { state: hash_dbg(&a), transitions: 1, traces: 1 });
    }
    // everybody else: ordinary rules
    let r = op_run_cfg(&db, &s, &tx, &opts);
    match (r, m) {
        (Err(a), Err(b)) => {
            // too little gas is noticed in MegaETH's own terms
            if !a.contains("GasLimit") {
                ensure_eq!(format!("{b:?}"), a, "error");
            }
            Ok(Case { state: hash_of(&a), transitions: 1, traces: 1 })
        }
        (Ok((rr, rs)), Ok(m)) => {
            let (a, b) = (obs(&m.result), obs(&rr));
            ensure_eq!((&a.res, &a.logs), (&b.res, &b.logs), "result");
            let (mut x, mut y) = (post_world(&w, &m.state), post_world(&w, &rs));
            if c.ty != 0x7e {
                // the sender pays for the gas MegaETH charges
                let paid = |p: &World| w.total_balance() - p.total_balance();
                ensure_eq!(paid(&x), paid(&y), "total balance");
                let extra = U256::from(a.gas_used - b.gas_used);
                let l1 = y.balance(OPERATOR_VAULT);
                if l1 == w.balance(OPERATOR_VAULT) {
                    ensure_eq!(
                        y.balance(c.sender) - x.balance(c.sender),
                        extra * U256::from(c.price),
                        "the sender pays the price for the extra gas"
                    );
                }
                for v in [c.sender, COINBASE, BASE_VAULT, OPERATOR_VAULT] {
                    x.accts.remove(&v);
                    y.accts.remove(&v);
                }
                ensure_eq!(post_world(&w, &m.state).nonce(c.sender), 5, "nonce");
            }
            ensure_eq!(x, y, "post state apart from fees");
            Ok(Case { state: hash_dbg(&a), transitions: 1, traces: 1 })
        }
        (r, m) => bad(format!(
            "one side rejects: implementation {:?}, reference {:?}",
            m.map(|m| m.result),
            r.map(|r| r.0)
        )),
    }
}

pub fn c15(run: &Run) {
    let specs: &[MegaSpecId] = &ALL_SPECS;
    let l1s = run.pick(vec![0, 3], vec![0, 1, 2, 3]);
    let gases = run.pick(vec![30_000_000, 15_000], vec![30_000_000, 15_000, 90_000_000_000]);
    let radix = [specs.len(), 3, KINDS.len(), TYPES.len(), 2, 2, 3, 3, 3, 2, gases.len(), l1s.len(), 3];
    let total: u64 = radix.iter().map(|x| *x as u64).product();
    let dec = |i: u64| {
        let d = digits(i, &radix);
        SysCase {
            spec: specs[d[0]],
            sender: SENDERS[d[1]](),
            kind: KINDS[d[2]](),
            ty: TYPES[d[3]],
            price: [0, 7][d[4]],
            basefee: [0, 5][d[5]],
            value: [0, 3, 3 * ETHER][d[6]],
            nonce: [0, 1, -1][d[7]],
            chain: [None, Some(1), Some(2)][d[8]],
            balance: [0, ETHER][d[9]],
            gas: gases[d[10]],
            l1: l1s[d[11]],
            prog: d[12],
        }
    };
    run.space(
        "transactions",
        "product of sender x callee x type x gas price x base fee x value x nonce x chain id x balance x gas limit x L1 configuration x callee behaviour x spec",
        total,
        |i| format!("{:?}", dec(i)),
        |i| check(&dec(i)),
    );
    // the predicates
    let all: Vec<SysCase> = (0..total).step_by(specs.len()).map(dec).collect();
    run.space(
        "predicates",
        "the published predicates on every transaction of the product",
        all.len() as u64,
        |i| format!("{:?}", all[i as usize]),
        |i| {
            let c = &all[i as usize];
            let tx = sys_tx(c);
            let want = c.sender == SYSTEM_ADDR && c.ty == 0 && c.kind == TxKind::Call(ORACLE);
            ensure_eq!(is_mega_system_transaction(&tx), want, "is_mega_system_transaction");
            ensure_eq!(check_if_mega_system_transaction(c.sender, c.ty, c.kind), want, "check_if_mega_system_transaction");
            ensure_eq!(sent_from_mega_system_address(&tx), c.sender == SYSTEM_ADDR, "sent_from_mega_system_address");
            ensure_eq!(is_deposit_like_transaction(&tx), want || c.ty == 0x7e, "is_deposit_like_transaction");
            Ok(Case { state: want as u64, transitions: 1, traces: 1 })
        },
    );
}
