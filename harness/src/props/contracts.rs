//! The system contracts as deployed (C35): the oracle, the timestamp reader and the keyless deployer.
use super::block::forks_for;
use crate::{common::*, ensure, ensure_eq, prog::*, runner::*};
use alloy_primitives::{keccak256, Address, B256, U256};
use mega_evm::{
    transact_deploy_high_precision_timestamp_oracle, transact_deploy_keyless_deploy_contract,
    transact_deploy_oracle_contract, MegaSpecId, MegaTransaction,
};
use revm::database::State;
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    sync::Arc,
};

type Words = Vec<U256>;

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Get(U256),
    Set(U256, U256),
    Gets(Words),
    Sets(Words, Words),
    Log(u64, Vec<u8>),
    Logs(u64, Vec<Vec<u8>>),
    Hint(u64, Vec<u8>),
    Multi(Vec<Call>),
    Version,
    SysAddr,
    /// calldata that no function accepts
    Raw(Vec<u8>),
    /// valid calldata followed by more bytes
    Tail(Box<Call>),
    // the timestamp reader
    Time,
    Update(U256),
    MaxSlots,
    Base,
    OracleAddr,
    // the keyless deployer
    Keyless(Vec<u8>, u64),
}
use Call::*;

// ------------------------------------------------------------------ a small ABI encoder

fn sel(sig: &str) -> Vec<u8> {
    keccak256(sig.as_bytes())[..4].to_vec()
}
fn word(n: U256) -> Vec<u8> {
    n.to_be_bytes::<32>().to_vec()
}
fn num(n: usize) -> Vec<u8> {
    word(U256::from(n))
}
enum V {
    W(U256),
    Bytes(Vec<u8>),
    Words(Words),
    BytesList(Vec<Vec<u8>>),
}
fn tail(v: &V) -> Vec<u8> {
    match v {
        V::W(_) => vec![],
        V::Bytes(b) => {
            let mut o = num(b.len());
            o.extend(b);
            o.resize(32 + b.len().div_ceil(32) * 32, 0);
            o
        }
        V::Words(w) => w.iter().fold(num(w.len()), |mut o, x| {
            o.extend(word(*x));
            o
        }),
        V::BytesList(l) => {
            let mut o = num(l.len());
            o.extend(tuple(&l.iter().map(|b| V::Bytes(b.clone())).collect::<Vec<_>>()));
            o
        }
    }
}
fn tuple(vs: &[V]) -> Vec<u8> {
    let mut head = vec![];
    let mut rest = vec![];
    for v in vs {
        if let V::W(w) = v {
            head.extend(word(*w));
        } else {
            head.extend(num(32 * vs.len() + rest.len()));
            rest.extend(tail(v));
        }
    }
    head.extend(rest);
    head
}
fn with(sig: &str, vs: &[V]) -> Vec<u8> {
    let mut o = sel(sig);
    o.extend(tuple(vs));
    o
}
fn topic(n: u64) -> V {
    V::W(U256::from(n))
}
fn encode(c: &Call) -> Vec<u8> {
    match c {
        Get(k) => with("getSlot(uint256)", &[V::W(*k)]),
        Set(k, v) => with("setSlot(uint256,bytes32)", &[V::W(*k), V::W(*v)]),
        Gets(k) => with("getSlots(uint256[])", &[V::Words(k.clone())]),
        Sets(k, v) => with("setSlots(uint256[],bytes32[])", &[V::Words(k.clone()), V::Words(v.clone())]),
        Log(t, d) => with("emitLog(bytes32,bytes)", &[topic(*t), V::Bytes(d.clone())]),
        Logs(t, d) => with("emitLogs(bytes32,bytes[])", &[topic(*t), V::BytesList(d.clone())]),
        Hint(t, d) => with("sendHint(bytes32,bytes)", &[topic(*t), V::Bytes(d.clone())]),
        Multi(cs) => with("multiCall(bytes[])", &[V::BytesList(cs.iter().map(encode).collect())]),
        Version => sel("version()"),
        SysAddr => sel("MEGA_SYSTEM_ADDRESS()"),
        Raw(b) => b.clone(),
        Tail(c) => {
            let mut o = encode(c);
            o.extend([0xff; 7]);
            o
        }
        Time => sel("timestamp()"),
        Update(v) => with("update(uint256)", &[V::W(*v)]),
        MaxSlots => vec![0x28, 0xaf, 0x7f, 0x3c],
        Base => vec![0x85, 0x82, 0xb7, 0xbc],
        OracleAddr => vec![0x3e, 0x68, 0x90, 0xfb],
        Keyless(b, n) => with("keylessDeploy(bytes,uint256)", &[V::Bytes(b.clone()), topic(*n)]),
    }
}

// ------------------------------------------------------------------ the model

type Storage = BTreeMap<U256, U256>;
type Logged = Vec<(Address, Vec<B256>, Vec<u8>)>;

#[derive(Clone, Debug, PartialEq)]
struct M {
    st: BTreeMap<Address, Storage>,
    logs: Logged,
}
#[derive(Clone, Copy, Debug)]
struct Ctx<'a> {
    this: Address,
    sender: Address,
    fixed: bool,
    value: u128,
    new: bool,
    service: &'a Storage,
}
impl M {
    fn load(&self, c: &Ctx<'_>, k: U256) -> U256 {
        if c.this == ORACLE {
            if let Some(v) = c.service.get(&k) {
                return *v;
            }
        }
        self.st.get(&c.this).and_then(|s| s.get(&k)).copied().unwrap_or_default()
    }
    fn store(&mut self, c: &Ctx<'_>, k: U256, v: U256) {
        let s = self.st.entry(c.this).or_default();
        if v.is_zero() {
            s.remove(&k);
        } else {
            s.insert(k, v);
        }
    }
    fn emit(&mut self, c: &Ctx<'_>, t: u64, d: &[u8]) {
        let sig = keccak256(b"Log(bytes32,bytes)");
        self.logs.push((c.this, vec![sig, U256::from(t).into()], tuple(&[V::Bytes(d.to_vec())])));
    }
    /// The oracle contract; an error is what the frame fails with, its effects are the caller's to drop.
    fn oracle(&mut self, c: &Ctx<'_>, call: &Call) -> Result<Vec<u8>, Vec<u8>> {
        let none = Err(vec![]);
        if c.value > 0 {
            return none;
        }
        if !c.new && matches!(call, Log(..) | Logs(..) | Hint(..) | Multi(..)) {
            return none;
        }
        // the check comes after the body, so a body that fails, or may not write, fails first
        let system = |ok: Vec<u8>| if c.sender == SYSTEM_ADDR { Ok(ok) } else { Err(sel("NotSystemAddress()")) };
        match call {
            Tail(x) => self.oracle(c, x),
            Get(k) => Ok(word(self.load(c, *k))),
            Gets(k) => Ok(tuple(&[V::Words(k.iter().map(|k| self.load(c, *k)).collect())])),
            Set(k, v) => {
                if c.fixed {
                    return none;
                }
                self.store(c, *k, *v);
                system(vec![])
            }
            Sets(k, v) => {
                if k.len() != v.len() {
                    return Err(with("InvalidLength(uint256,uint256)", &[topic(k.len() as u64), topic(v.len() as u64)]));
                }
                if c.fixed && !k.is_empty() {
                    return none;
                }
                for (k, v) in k.iter().zip(v) {
                    self.store(c, *k, *v);
                }
                system(vec![])
            }
            Log(t, d) => {
                if c.fixed {
                    return none;
                }
                self.emit(c, *t, d);
                system(vec![])
            }
            Logs(t, ds) => {
                if c.fixed && !ds.is_empty() {
                    return none;
                }
                for d in ds {
                    self.emit(c, *t, d);
                }
                system(vec![])
            }
            Hint(..) => Ok(vec![]),
            Multi(cs) => {
                let mut out = vec![];
                for x in cs {
                    match self.oracle(c, x) {
                        Ok(r) => out.push(r),
                        Err(e) if e.is_empty() => return Err(with("Error(string)", &[V::Bytes(b"Multicall: call failed".to_vec())])),
                        Err(e) => return Err(e),
                    }
                }
                Ok(tuple(&[V::BytesList(out)]))
            }
            Version => Ok(tuple(&[V::Bytes(if c.new { b"1.1.0".to_vec() } else { b"1.0.0".to_vec() })])),
            SysAddr => Ok(SYSTEM_ADDR.into_word().to_vec()),
            _ => none,
        }
    }
    fn timestamp(&mut self, c: &Ctx<'_>, call: &Call) -> Result<Vec<u8>, Vec<u8>> {
        if c.value > 0 {
            return Err(vec![]);
        }
        let inner = Ctx { this: ORACLE, sender: c.this, ..*c };
        match call {
            Tail(x) => self.timestamp(c, x),
            Time => self.oracle(&inner, &Get(U256::ZERO)),
            Update(v) => self.oracle(&inner, &Set(U256::ZERO, *v)),
            MaxSlots => Ok(num(8)),
            Base => Ok(num(0)),
            OracleAddr => Ok(ORACLE.into_word().to_vec()),
            _ => Err(vec![]),
        }
    }
    fn keyless(&mut self, c: &Ctx<'_>, call: &Call) -> Result<Vec<u8>, Vec<u8>> {
        if c.value > 0 || !c.new {
            return if c.new { Err(vec![]) } else { Ok(vec![]) };
        }
        match call {
            Tail(x) => self.keyless(c, x),
            Version => Ok(tuple(&[V::Bytes(b"1.0.0".to_vec())])),
            Keyless(..) => Err(sel("NotIntercepted()")),
            _ => Err(vec![]),
        }
    }
}

// ------------------------------------------------------------------ routes

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Route {
    Sys,
    User,
    UserDeposit,
    UserPays,
    Relay(u8, u128),
    /// an account whose code delegates to the contract
    Delegated,
    /// from init code
    Init,
}
use Route::*;
const ROUTES: [Route; 11] = [
    Sys,
    User,
    UserDeposit,
    UserPays,
    Relay(0xf1, 0),
    Relay(0xf1, 1),
    Relay(0xf2, 0),
    Relay(0xf4, 0),
    Relay(0xfa, 0),
    Delegated,
    Init,
];

/// calls `to` with its own calldata, or the last `own` bytes of its code, and passes the answer on
fn relay(op: u8, value: u128, to: Address, data: Option<&[u8]>) -> Vec<u8> {
    let body = |at: u64| {
        let mut a = Asm::default();
        match data {
            None => a = a.op(0x36).op(0x5f).op(0x5f).op(0x37),
            Some(d) => a = a.push(d.len() as u64).op(0x61).ops(&(at as u16).to_be_bytes()).op(0x5f).op(0x39),
        }
        a = a.op(0x5f).op(0x5f);
        a = match data {
            None => a.op(0x36),
            Some(d) => a.push(d.len() as u64),
        };
        a = a.op(0x5f);
        if matches!(op, 0xf1 | 0xf2) {
            a = a.push(value as u64);
        }
        a = a.push_addr(to).op(0x5a).op(op);
        a = a.op(0x3d).op(0x5f).op(0x5f).op(0x3e);
        let ok = a.code.len() as u64 + 7;
        a = a.op(0x61).ops(&(ok as u16).to_be_bytes()).op(0x57).op(0x3d).op(0x5f).op(0xfd).op(0x5b);
        a.op(0x3d).op(0x5f).op(0xf3).build()
    };
    let n = body(0).len() as u64;
    let mut c = body(n);
    if let Some(d) = data {
        c.extend(d);
    }
    c
}
fn kinds() -> [(u8, u128); 5] {
    [(0xf1, 0), (0xf1, 1), (0xf2, 0), (0xf4, 0), (0xfa, 0)]
}
fn relay_addr(contract: Address, op: u8, value: u128) -> Address {
    let mut a = A.into_array();
    a[10] = op;
    a[11] = value as u8;
    a[12] = contract.into_array()[19];
    a.into()
}
fn delegated_addr(contract: Address) -> Address {
    let mut a = DELEG.into_array();
    a[12] = contract.into_array()[19];
    a.into()
}

/// The chain right after the first block of a spec.
fn genesis(spec: MegaSpecId) -> Result<World, Bad> {
    let mut w = base_world();
    w.set(SYSTEM_ADDR, 0, 4, &[]);
    for c in [ORACLE, HP_TIMESTAMP, KEYLESS] {
        for (op, v) in kinds() {
            w.set(relay_addr(c, op, v), ETHER, 1, &relay(op, v, c, None)).storage.extend([(U256::ZERO, U256::from(70)), (U256::from(2), U256::from(72))]);
        }
        let mut code = vec![0xef, 1, 0];
        code.extend(c.as_slice());
        w.set(delegated_addr(c), ETHER, 1, &code).storage.insert(U256::ZERO, U256::from(90));
    }
    let forks = forks_for(spec);
    let mut st = State::builder().with_database(McDb::new(&w)).build();
    let e = |e: DbErr| Bad { what: format!("{e:?}") };
    let all = [
        transact_deploy_oracle_contract(&forks, 1, &mut st).map_err(e)?,
        transact_deploy_high_precision_timestamp_oracle(&forks, 1, &mut st).map_err(e)?,
        transact_deploy_keyless_deploy_contract(&forks, 1, &mut st).map_err(e)?,
    ];
    for s in all.into_iter().flatten() {
        w.commit(&s);
    }
    Ok(w)
}

struct Step {
    contract: Address,
    route: Route,
    call: Call,
}

fn slots() -> Words {
    vec![U256::ZERO, U256::from(1), U256::MAX]
}
fn oracle_calls(deep: bool) -> Vec<Call> {
    let mut v = vec![];
    let (z, o, m) = (U256::ZERO, U256::from(1), U256::MAX);
    let vals = [z, o, m];
    for k in slots() {
        v.push(Get(k));
        for x in vals {
            v.push(Set(k, x));
        }
    }
    for n in 0..=3 {
        v.push(Gets(slots()[..n].to_vec()));
    }
    v.extend([Gets(vec![o, o]), Gets(vec![m, z])]);
    v.extend([
        Sets(vec![], vec![]),
        Sets(vec![z], vec![m]),
        Sets(vec![z, o], vec![o, m]),
        Sets(vec![z, z], vec![m, o]),
        Sets(vec![m, o, z], vec![z, z, z]),
        Sets(vec![z], vec![]),
        Sets(vec![], vec![z]),
        Sets(vec![z, o], vec![z, o, m]),
    ]);
    for n in [0usize, 1, 31, 32, 33, 100] {
        v.push(Log(n as u64, vec![n as u8 + 1; n]));
        v.push(Hint(n as u64, vec![n as u8 + 1; n]));
    }
    v.extend([Logs(5, vec![]), Logs(5, vec![vec![]]), Logs(5, vec![vec![1], vec![2; 40], vec![]])]);
    v.extend([Version, SysAddr, Time, Base]);
    let short: Vec<Call> = vec![Get(z), Set(z, o), Set(o, m), Gets(vec![z, o]), Sets(vec![z], vec![]), Log(1, vec![7; 33]), Hint(2, vec![8]), Version, SysAddr, Raw(vec![1, 2, 3, 4]), Raw(vec![])];
    v.push(Multi(vec![]));
    for a in &short {
        v.push(Multi(vec![a.clone()]));
        v.push(Multi(vec![Multi(vec![a.clone()])]));
        for b in &short {
            v.push(Multi(vec![a.clone(), b.clone()]));
            if deep {
                for c in &short {
                    v.push(Multi(vec![a.clone(), b.clone(), c.clone()]));
                    v.push(Multi(vec![a.clone(), Multi(vec![b.clone(), c.clone()])]));
                }
            }
        }
    }
    v.push(Multi(vec![Multi(vec![]), Get(o), Multi(vec![Set(o, o), Get(o), Multi(vec![Log(3, vec![])])]), Get(o)]));
    // malformed calldata: every proper prefix that cuts an argument, wrong selectors, wild offsets
    let full = [Get(o), Set(o, o), Gets(vec![z, o]), Sets(vec![z], vec![o]), Log(1, vec![7; 33]), Logs(1, vec![vec![1]]), Hint(1, vec![2; 3]), Multi(vec![Get(z)])];
    for f in &full {
        let e = encode(f);
        for cut in [0usize, 1, 3, 4, 5, 35, 36, 37, 67, 68, 69, e.len() - 1] {
            // the padding of bytes may be missing
            let free = matches!(f, Log(..) | Hint(..) | Logs(..) | Multi(..));
            if cut < e.len() && !(free && cut > 68) {
                v.push(Raw(e[..cut].to_vec()));
            }
        }
        v.push(Tail(Box::new(f.clone())));
        if e.len() > 68 && !matches!(f, Set(..)) {
            let at = if matches!(f, Gets(..) | Multi(..) | Sets(..)) { 4 } else { 36 };
            for wild in [U256::MAX, U256::from(1u64 << 40), U256::from(e.len())] {
                let mut x = e.clone();
                x[at..at + 32].copy_from_slice(&word(wild));
                v.push(Raw(x));
            }
        }
    }
    v.extend([Raw(vec![0; 4]), Raw(vec![0xff; 36]), Raw(sel("setSlot(uint256,uint256)")), Raw(sel("owner()"))]);
    v
}
fn steps(deep: bool) -> Vec<Step> {
    let mut v = vec![];
    for call in oracle_calls(deep) {
        for route in ROUTES {
            v.push(Step { contract: ORACLE, route, call: call.clone() });
        }
    }
    let ts = vec![Time, Update(U256::ZERO), Update(U256::from(1)), Update(U256::MAX), MaxSlots, Base, OracleAddr, Version, Get(U256::ZERO), Set(U256::ZERO, U256::from(1)), Raw(vec![]), Raw(vec![0xb8, 0x07, 0x77]), Raw(vec![0; 36]), Raw(encode(&Update(U256::from(1)))[..35].to_vec()), Tail(Box::new(Time)), Tail(Box::new(Update(U256::from(5))))];
    let kl = vec![Version, Keyless(vec![], 0), Keyless(vec![1; 33], 5), Time, Raw(vec![]), Raw(vec![1, 2]), Tail(Box::new(Version))];
    for (contract, calls) in [(HP_TIMESTAMP, ts), (KEYLESS, kl)] {
        for call in calls {
            for route in ROUTES {
                // the system sender may call the oracle only (C15); a direct keyless deployment runs (C19)
                if matches!(route, Sys) {
                    continue;
                }
                if contract == KEYLESS && matches!(call, Keyless(..)) && !matches!(route, Relay(..) | Delegated | Init) {
                    continue;
                }
                v.push(Step { contract, route, call: call.clone() });
            }
        }
    }
    v
}

fn tx_of(s: &Step) -> MegaTransaction {
    let data = encode(&s.call);
    match s.route {
        Route::Sys => nonced(tx_call(SYSTEM_ADDR, s.contract, data, 0), 4),
        UserDeposit => {
            let mut t = tx_call(CALLER, s.contract, data, 0);
            t.deposit.source_hash = B256::repeat_byte(3);
            t
        }
        User => tx_call(CALLER, s.contract, data, 0),
        UserPays => tx_call(CALLER, s.contract, data, 1),
        Relay(op, v) => tx_call(CALLER, relay_addr(s.contract, op, v), data, 0),
        Delegated => tx_call(CALLER, delegated_addr(s.contract), data, 0),
        Init => {
            let d = encode(&s.call);
            tx_create(CALLER, relay(0xf1, 0, s.contract, Some(&d)), 0)
        }
    }
}

/// The model's answer: whether the outer call succeeds, with what output, and the storage and logs after.
fn predict(m: &M, s: &Step, new: bool, service: &Storage) -> (bool, Vec<u8>, M) {
    let (this, sender, fixed, value) = match s.route {
        Route::Sys => (s.contract, SYSTEM_ADDR, false, 0),
        User | UserDeposit => (s.contract, CALLER, false, 0),
        UserPays => (s.contract, CALLER, false, 1),
        Relay(op, v) => {
            let r = relay_addr(s.contract, op, v);
            match op {
                0xf1 => (s.contract, r, false, v),
                0xf2 => (r, r, false, 0),
                0xf4 => (r, CALLER, false, 0),
                _ => (s.contract, r, true, 0),
            }
        }
        Delegated => (delegated_addr(s.contract), CALLER, false, 0),
        Init => (s.contract, CALLER.create(0), false, 0),
    };
    let c = Ctx { this, sender, fixed, value, new, service };
    let mut n = m.clone();
    n.logs.clear();
    let r = match s.contract {
        ORACLE => n.oracle(&c, &s.call),
        HP_TIMESTAMP => n.timestamp(&c, &s.call),
        _ => n.keyless(&c, &s.call),
    };
    match r {
        Ok(o) => (true, o, n),
        Err(e) => (false, e, M { st: m.st.clone(), logs: vec![] }),
    }
}

fn services() -> Vec<Storage> {
    vec![
        Storage::new(),
        [(U256::ZERO, U256::from(77)), (U256::from(1), U256::ZERO)].into(),
        [(U256::MAX, U256::from(5)), (U256::ZERO, U256::MAX)].into(),
    ]
}

pub fn c35(run: &Run) {
    let all = steps(run.thorough());
    let svc = services();
    // every storage of the oracle the model can reach
    let start = M { st: BTreeMap::new(), logs: vec![] };
    let mut seen: BTreeSet<Vec<(U256, U256)>> = BTreeSet::new();
    let mut todo = VecDeque::from([Storage::new()]);
    seen.insert(vec![]);
    while let Some(st) = todo.pop_front() {
        let mut m = start.clone();
        m.st.insert(ORACLE, st);
        for s in &all {
            let (_, _, n) = predict(&m, s, true, &svc[0]);
            let o = n.st.get(&ORACLE).cloned().unwrap_or_default();
            if seen.insert(o.iter().map(|(k, v)| (*k, *v)).collect()) {
                todo.push_back(o);
            }
        }
    }
    let states: Vec<Storage> = seen.into_iter().map(|v| v.into_iter().collect()).collect();
    let (nst, nsv, nsp) = (states.len() as u64, svc.len() as u64, REX_SPECS.len() as u64);
    run.space(
        "calls of the deployed system contracts",
        "every reachable oracle storage x every call x every route to it x services x specs; the reachable storages are closed under all calls, so every longer history is a path through these",
        nst * nsv * nsp * all.len() as u64,
        |i| {
            let s = &all[(i / (nst * nsv * nsp)) as usize];
            format!("{:?} {} {:?}: storage {} service {} {:?}", s.route, s.contract, s.call, i % nst, i / nst % nsv, REX_SPECS[(i / nst / nsv % nsp) as usize])
        },
        |i| {
            let storage = &states[(i % nst) as usize];
            let service = &svc[(i / nst % nsv) as usize];
            let spec = REX_SPECS[(i / nst / nsv % nsp) as usize];
            let s = &all[(i / (nst * nsv * nsp)) as usize];
            thread_local! {
                static GEN: std::cell::RefCell<BTreeMap<u8, World>> = Default::default();
            }
            let cached = GEN.with(|g| g.borrow().get(&rank(spec)).cloned());
            let mut w = match cached {
                Some(w) => w,
                None => {
                    let w = genesis(spec)?;
                    GEN.with(|g| g.borrow_mut().insert(rank(spec), w.clone()));
                    w
                }
            };
            if let Some(o) = w.accts.get_mut(&ORACLE) {
                o.storage = storage.clone();
            }
            let new = rank(spec) >= R_REX2;
            let m = M { st: w.accts.iter().filter(|(_, a)| !a.storage.is_empty()).map(|(a, x)| (*a, x.storage.clone())).collect(), logs: vec![] };
            let (ok, out, mut n) = predict(&m, s, new, service);
            if s.contract == KEYLESS && !new {
                // not deployed: the calls reach an account without code
                return Ok(Case::default());
            }
            n.st.retain(|_, s| !s.is_empty());
            let mut su = Setup::new(spec).unlimited();
            su.envs.oracle.values = Arc::new(service.clone());
            let tx = tx_of(s);
            let sender = tx.base.caller;
            let r = mega_run(&McDb::new(&w), &su, tx).map_err(|e| Bad { what: format!("rejected: {e:?}") })?;
            let halted = r.result.is_halt();
            ensure_eq!(r.result.is_success(), ok, "success of the call");
            if s.route == Init && ok {
                // the answer becomes the code of the new account
                ensure_eq!(post_world(&w, &r.state).acct(CALLER.create(0)).code.to_vec(), out, "answer");
            } else if !halted {
                ensure_eq!(r.result.output().map(|o| o.to_vec()).unwrap_or_default(), out, "answer");
            } else {
                ensure!(out.is_empty(), "stopped without the expected answer: {:?}", r.result);
            }
            let logs: Logged = r.result.logs().iter().map(|l| (l.address, l.data.topics().to_vec(), l.data.data.to_vec())).collect();
            ensure_eq!(logs, n.logs, "logs");
            // the whole world: storage as predicted, the sender's nonce, nothing else
            let post = post_world(&w, &r.state);
            let mut want = w.clone();
            want.accts.get_mut(&sender).unwrap().nonce += 1;
            for (a, x) in want.accts.iter_mut() {
                x.storage = n.st.get(a).cloned().unwrap_or_default();
            }
            if s.route == Init && ok {
                want.set(CALLER.create(0), 0, 1, &out);
            }
            ensure_eq!(post, want, "state");
            Ok(Case { state: hash_of(&(rank(spec), i / nst % nsv, format!("{:?}", post.acct(ORACLE).storage), out)), transitions: 1, traces: 1 })
        },
    );
}
