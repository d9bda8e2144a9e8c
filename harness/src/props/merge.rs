//! Merging state changes (C26).
use super::block::digits;
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use alloy_primitives::{Address, B256, U256};
use mega_evm::{merge_evm_state, MegaSpecId, MegaTransaction};
use revm::{
    database::{states::bundle_state::BundleRetention, State},
    primitives::map::HashMap,
    state::{AccountStatus, EvmState},
    DatabaseCommit,
};

/// The child every factory script deals with: with calldata it writes `data[0]` to slot 1 and
/// 1 to slot 2 (when the byte is below 0x80), or destroys itself (0x80: to itself, 0x81: to EOA).
fn child_code() -> Vec<u8> {
    // byte 0 of the calldata on the stack
    let mut a = Asm::default().push(0).op(0x35).push(0).op(0x1a);
    // if >= 0x80 jump to the destruction
    let write_len = 12;
    a = a.op(0x80).push(0x7f).op(0x10).push(0); // placeholder target pushed as PUSH0, patched below
    let mut c = a.build();
    let patch = c.len() - 1;
    c[patch] = 0x60; // PUSH1
    c.push(0);
    c.push(0x57);
    let w = Asm::default().push(1).op(0x55).push(1).push(2).op(0x55).op(0x00).build();
    let _ = write_len;
    c.extend(w);
    let target = c.len() as u8;
    c[patch + 1] = target;
    c.push(0x5b);
    // 0x80 -> ADDRESS, 0x81 -> EOA
    c.extend(Asm::default().push(0x81).op(0x14).build());
    let j = c.len();
    c.extend([0x60, 0, 0x57, 0x30, 0xff]);
    c[j + 1] = c.len() as u8;
    c.push(0x5b);
    c.extend(Asm::default().push_addr(EOA).op(0xff).build());
    c
}
fn init_code() -> Vec<u8> {
    let code = child_code();
    let store = Asm::default().sstore(1, 9).sstore(3, 3).build();
    let head = |off: u64| {
        [store.clone(), Asm::default().push(code.len() as u64).push(off).push(0).op(0x39).push(code.len() as u64).push(0).op(0xf3).build()].concat()
    };
    let off = head(99).len() as u64;
    [head(off), code].concat()
}
fn child() -> Address {
    A.create2(B256::ZERO, alloy_primitives::keccak256(init_code()))
}
fn call(to: Address, byte: Option<u8>, value: u64) -> Vec<u8> {
    let mut a = Asm::default();
    if let Some(b) = byte {
        a = a.push(b as u64).push(0).op(0x53); // MSTORE8
    }
    a.push(0).push(0).push(byte.is_some() as u64).push(0).push(value).push_addr(to).push(500_000).op(0xf1).op(0x50).build()
}
fn create2(value: u64) -> Vec<u8> {
    let i = init_code();
    Asm::default().mem(0, &i).push(0).push(i.len() as u64).push(0).push(value).op(0xf5).op(0x50).build()
}
fn steps() -> Vec<(&'static str, Vec<u8>)> {
    let c = child();
    vec![
        ("create the child", create2(0)),
        ("create the child with value and destroy it to itself", [create2(4), call(c, Some(0x80), 0)].concat()),
        ("create, destroy to another", [create2(4), call(c, Some(0x81), 0)].concat()),
        ("child writes 2", call(c, Some(2), 0)),
        ("child writes 0", call(c, Some(0), 0)),
        ("destroy the child", call(c, Some(0x81), 0)),
        ("send value to the child", call(c, None, 5)),
        ("touch the child", call(c, None, 0)),
        ("read the child", Asm::default().push_addr(c).op(0x31).op(0x50).build()),
        ("own slots", Asm::default().sstore(5, 0).sstore(6, 1).build()),
        ("own slots back", Asm::default().sstore(5, 55).sstore(6, 0).push(7).op(0x54).op(0x50).build()),
        ("write and revert", [Asm::default().sstore(6, 9).build(), call(c, None, 3), Asm::default().push(0).push(0).op(0xfd).build()].concat()),
        ("nothing", vec![]),
    ]
}
fn world() -> World {
    let mut w = base_world();
    let ss = steps();
    let head = 4 + ss.len() * 8 + 1;
    let mut pos = head;
    let mut code = vec![0x5f, 0x35, 0x5f, 0x1a];
    for (i, (_, c)) in ss.iter().enumerate() {
        code.extend_from_slice(&[0x80, 0x60, i as u8, 0x14, 0x61]);
        code.extend_from_slice(&(pos as u16).to_be_bytes());
        code.push(0x57);
        pos += 3 + c.len();
    }
    code.push(0xfe);
    for (_, c) in &ss {
        code.push(0x5b);
        code.push(0x50);
        code.extend_from_slice(c);
        code.push(0);
    }
    w.set(A, ETHER, 1, &code).storage.insert(U256::from(5), U256::from(55));
    w
}

/// How the states are combined.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fold {
    /// into the first state
    Left,
    /// into an empty state
    Empty,
    /// the later ones are merged first
    Right,
}
fn fold(f: Fold, st: &[EvmState]) -> EvmState {
    match f {
        Fold::Left => {
            let mut x = st[0].clone();
            for s in &st[1..] {
                merge_evm_state(&mut x, s);
            }
            x
        }
        Fold::Empty => {
            let mut x = EvmState::default();
            for s in st {
                merge_evm_state(&mut x, s);
            }
            x
        }
        Fold::Right => {
            let mut y = st[st.len() - 1].clone();
            for s in st[..st.len() - 1].iter().rev() {
                let mut x = s.clone();
                merge_evm_state(&mut x, &y);
                y = x;
            }
            y
        }
    }
}

/// The world seen through revm's own state after committing the given changes in order.
fn via_revm(what: &str, w: &World, st: &[EvmState]) -> Result<(World, World), Bad> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| via_revm_inner(w, st))).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        Bad { what: format!("{what}: committing panics: {m}") }
    })
}
fn via_revm_inner(w: &World, st: &[EvmState]) -> (World, World) {
    let mut s = State::builder().with_database(McDb::new(w)).with_bundle_update().build();
    s.set_state_clear_flag(true);
    for x in st {
        // revm requires that a committed account was loaded before
        for a in x.keys() {
            s.load_cache_account(*a).unwrap();
        }
        s.commit(x.clone());
    }
    let seen = super::block::world_via_state(&mut s, &[w]);
    s.merge_transitions(BundleRetention::Reverts);
    (seen, super::block::world_via_bundle(w, &mut s))
}

fn check(run: &Run, spec: MegaSpecId, pre: u8, seq: &[usize]) -> CaseResult {
    let mut w0 = world();
    match pre {
        1 => {
            // the child's address already holds funds
            w0.set(child(), 3, 0, &[]);
        }
        2 => {
            // the child already exists
            w0.set(child(), 3, 1, &child_code()).storage.insert(U256::from(1), U256::from(8));
        }
        _ => {}
    }
    let s = Setup::new(spec).unlimited();
    let mut w = w0.clone();
    let mut states: Vec<EvmState> = vec![];
    let mut worlds = vec![];
    for k in seq {
        let t: MegaTransaction = nonced(tx_call(CALLER, A, vec![*k as u8], 0), w.nonce(CALLER));
        let o = match mega_run(&McDb::new(&w), &s, t) {
            Ok(o) => o,
            Err(e) => return bad(format!("step {k} rejected: {e:?}")),
        };
        w.commit(&o.state);
        states.push(o.state);
        worlds.push(w.clone());
    }
    let (seq_seen, seq_bundle) = via_revm("sequential", &w0, &states)?;
    ensure_eq!(seq_seen, w, "harness: sequential commits read back");
    ensure_eq!(seq_bundle, w, "harness: sequential bundle");
    let mut n = 0;
    for f in [Fold::Left, Fold::Empty, Fold::Right] {
        let m = fold(f, &states);
        n += states.len() as u64;
        let mut got = w0.clone();
        got.commit(&m);
        ensure_eq!(got, w, "{f:?}: state after committing the merged changes");
        match via_revm(&format!("{f:?}"), &w0, std::slice::from_ref(&m)) {
            Ok((seen, bundle)) => {
                ensure_eq!(seen, w, "{f:?}: state read after committing the merged changes");
                ensure_eq!(bundle, w, "{f:?}: bundle of the merged changes");
            }
            Err(b) => {
                let gone = w0.accts.contains_key(&child()) && !w.accts.contains_key(&child());
                if pre != 1 || !gone || !b.what.contains("touch empty is not possible from Loaded") {
                    return Err(b);
                }
                run.known("destroyed_funded_account_cannot_be_committed", b.what)?;
            }
        }
        // every account and slot that any of the transactions loaded is there, and nothing else
        let mut want: HashMap<Address, std::collections::BTreeSet<U256>> = HashMap::default();
        for st in &states {
            for (a, acc) in st {
                let e = want.entry(*a).or_default();
                if acc.is_selfdestructed() {
                    // its slots are gone with it
                    e.clear();
                } else {
                    e.extend(acc.storage.keys().copied());
                }
            }
        }
        let have: std::collections::BTreeSet<_> = m.keys().copied().collect();
        ensure_eq!(have, want.keys().copied().collect::<std::collections::BTreeSet<_>>(), "{f:?}: accounts in the merged state");
        for (a, acc) in &m {
            let ws = &want[a];
            for k in ws {
                ensure!(acc.storage.contains_key(k), "{f:?}: slot {k} of {a} was loaded and is missing");
            }
            let touched = states.iter().any(|s| s.get(a).is_some_and(|x| x.is_touched()));
            ensure_eq!(acc.is_touched(), touched, "{f:?}: touched flag of {a}");
            for (k, v) in &acc.storage {
                let before = w0.accts.get(a).and_then(|x| x.storage.get(k).copied()).unwrap_or_default();
                ensure_eq!(v.original_value, before, "{f:?}: original value of slot {k} of {a}");
                let now = w.accts.get(a).and_then(|x| x.storage.get(k).copied()).unwrap_or_default();
                ensure!(acc.is_selfdestructed() || v.present_value == now, "{f:?}: value of slot {k} of {a}: {} instead of {now}", v.present_value);
            }
            if f == Fold::Empty {
                // a merged state starts the next transaction from scratch
                ensure!(acc.status.contains(AccountStatus::Cold), "{f:?}: {a} is warm after merging into an empty state");
                ensure!(acc.storage.values().all(|s| s.is_cold), "{f:?}: a slot of {a} is warm after merging into an empty state");
                ensure!(!acc.is_created_locally() && !acc.is_selfdestructed_locally(), "{f:?}: {a} keeps a transaction-local flag");
            }
            if f == Fold::Left {
                if let Some(x) = states[0].get(a) {
                    ensure_eq!(acc.status.contains(AccountStatus::Cold), x.status.contains(AccountStatus::Cold), "{f:?}: coldness of {a}");
                    for (k, v) in &acc.storage {
                        if let Some(y) = x.storage.get(k) {
                            if !x.is_selfdestructed() {
                                ensure_eq!(v.is_cold, y.is_cold, "{f:?}: coldness of slot {k} of {a}");
                            }
                        } else {
                            ensure!(v.is_cold, "{f:?}: slot {k} of {a} is warm");
                        }
                    }
                } else {
                    ensure!(acc.status.contains(AccountStatus::Cold), "{f:?}: {a} is warm");
                }
            }
        }
    }
    Ok(Case { state: hash_dbg(&w), transitions: n, traces: 3 })
}

pub fn c26(run: &Run) {
    let ss = steps();
    let k = ss.len() as u64;
    let n = run.pick(4usize, 5);
    let specs: &[MegaSpecId] =
        run.pick(&[MegaSpecId::EQUIVALENCE, MegaSpecId::REX1, MegaSpecId::REX3], &ALL_SPECS);
    for n in 1..=n {
        let mut radix = vec![specs.len() as u64, 3];
        radix.extend(std::iter::repeat_n(k, n));
        let dec = |i: u64| {
            let d = digits(i, &radix);
            (specs[d[0]], d[1] as u8, d[2..].to_vec())
        };
        run.space(
            &format!("{n} transactions"),
            &format!("all sequences of {n} of {k} transactions around a contract that is created, written, funded and destroyed x {} specs x its address empty, funded or in use; merged into the first, into an empty state, and right to left", specs.len()),
            radix.iter().product(),
            |i| {
                let (s, p, q) = dec(i);
                format!("{s:?} address {}: {:?}", ["empty", "funded", "in use"][p as usize], q.iter().map(|x| ss[*x].0).collect::<Vec<_>>())
            },
            |i| {
                let (s, p, q) = dec(i);
                check(run, s, p, &q)
            },
        );
    }
}
