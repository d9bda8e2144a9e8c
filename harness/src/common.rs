//! Shared pieces: the in-memory world, external environments, transaction helpers and runners.
use alloy_primitives::{address, keccak256, Address, Bytes, B256, U256};
use mega_evm::{
    EvmTxRuntimeLimits, ExternalEnvFactory, ExternalEnvTypes, ExternalEnvs, MegaContext, MegaEvm,
    MegaHaltReason, MegaSpecId, MegaTransaction, MegaTransactionError, MegaTransactionOutcome,
    OracleEnv, SaltEnv,
};
use op_revm::L1BlockInfo;
use revm::{
    bytecode::Bytecode,
    context::{
        result::{EVMError, ExecutionResult, Output},
        BlockEnv, CfgEnv, TxEnv,
    },
    primitives::{TxKind, KECCAK_EMPTY},
    state::{AccountInfo, EvmState},
    Database,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    sync::Arc,
};

pub const CALLER: Address = address!("00000000000000000000000000000000000c0001");
pub const A: Address = address!("0000000000000000000000000000000000aa0001");
pub const B: Address = address!("0000000000000000000000000000000000bb0001");
pub const C: Address = address!("0000000000000000000000000000000000cc0001");
/// an existing account without code
pub const EOA: Address = address!("0000000000000000000000000000000000e00001");
/// an account that does not exist
pub const NONE: Address = address!("0000000000000000000000000000000000f00001");
pub const NONE2: Address = address!("0000000000000000000000000000000000f00002");
/// in the database, but empty
pub const EMPTY: Address = address!("0000000000000000000000000000000000f00003");
/// nothing but code
pub const CODE_ONLY: Address = address!("0000000000000000000000000000000000f00004");
/// accounts with an EIP-7702 delegation
pub const DELEG: Address = address!("0000000000000000000000000000000000de1e01");
pub const DELEG_NONE: Address = address!("0000000000000000000000000000000000de1e02");
pub const CYC1: Address = address!("0000000000000000000000000000000000c7c101");
pub const CYC2: Address = address!("0000000000000000000000000000000000c7c102");
pub const COINBASE: Address = address!("00000000000000000000000000000000c01ba5e1");
pub const ORACLE: Address = address!("6342000000000000000000000000000000000001");
pub const HP_TIMESTAMP: Address = address!("6342000000000000000000000000000000000002");
pub const KEYLESS: Address = address!("6342000000000000000000000000000000000003");
pub const SYSTEM_ADDR: Address = address!("A887dCB9D5f39Ef79272801d05Abdf707CFBbD1d");
pub const ETHER: u128 = 1_000_000_000_000_000_000;

pub const ALL_SPECS: [MegaSpecId; 7] = [
    MegaSpecId::EQUIVALENCE,
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];
/// The specs with MegaETH semantics.
pub const REX_SPECS: [MegaSpecId; 6] = [
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];

/// Numeric rank of a spec; the harness has its own order so that it does not depend on the
/// crate's comparison helpers.
pub fn rank(s: MegaSpecId) -> u8 {
    match s {
        MegaSpecId::EQUIVALENCE => 0,
        MegaSpecId::MINI_REX => 1,
        MegaSpecId::REX => 2,
        MegaSpecId::REX1 => 3,
        MegaSpecId::REX2 => 4,
        MegaSpecId::REX3 => 5,
        MegaSpecId::REX4 => 6,
        _ => unreachable!("unknown spec"),
    }
}
pub const R_MINI: u8 = 1;
pub const R_REX: u8 = 2;
pub const R_REX1: u8 = 3;
pub const R_REX2: u8 = 4;
pub const R_REX3: u8 = 5;

// ------------------------------------------------------------------ world / database

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub balance: U256,
    pub nonce: u64,
    pub code: Bytes,
    pub storage: BTreeMap<U256, U256>,
}

/// A complete world state: the canonical observable of an execution.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct World {
    pub accts: BTreeMap<Address, Acct>,
}

impl World {
    pub fn acct(&self, a: Address) -> Acct {
        self.accts.get(&a).cloned().unwrap_or_default()
    }
    pub fn balance(&self, a: Address) -> U256 {
        self.accts.get(&a).map(|x| x.balance).unwrap_or_default()
    }
    pub fn nonce(&self, a: Address) -> u64 {
        self.accts.get(&a).map(|x| x.nonce).unwrap_or_default()
    }
    pub fn slot(&self, a: Address, k: u64) -> U256 {
        self.accts
            .get(&a)
            .and_then(|x| x.storage.get(&U256::from(k)).copied())
            .unwrap_or_default()
    }
    pub fn set(&mut self, a: Address, balance: u128, nonce: u64, code: &[u8]) -> &mut Acct {
        let e = self.accts.entry(a).or_default();
        e.balance = U256::from(balance);
        e.nonce = nonce;
        e.code = Bytes::copy_from_slice(code);
        e
    }
    pub fn total_balance(&self) -> U256 {
        self.accts.values().fold(U256::ZERO, |s, a| s + a.balance)
    }
    /// Applies an execution's state changes the way a database commit does: only touched
    /// accounts are written, destroyed and empty accounts vanish.
    pub fn commit(&mut self, st: &EvmState) {
        for (addr, acc) in st.iter() {
            if !acc.is_touched() {
                continue;
            }
            if acc.is_selfdestructed() {
                self.accts.remove(addr);
                continue;
            }
            let empty = acc.info.balance.is_zero() &&
                acc.info.nonce == 0 &&
                (acc.info.code_hash == KECCAK_EMPTY || acc.info.code_hash.is_zero());
            if empty {
                self.accts.remove(addr);
                continue;
            }
            let e = self.accts.entry(*addr).or_default();
            e.balance = acc.info.balance;
            e.nonce = acc.info.nonce;
            if acc.info.code_hash == KECCAK_EMPTY {
                e.code = Bytes::new();
            } else if let Some(code) = &acc.info.code {
                e.code = code.original_bytes();
            } else {
                assert_eq!(keccak256(&e.code), acc.info.code_hash, "code missing in the state");
            }
            if acc.is_created() {
                e.storage.clear();
            }
            for (k, v) in acc.storage.iter() {
                if v.present_value.is_zero() {
                    e.storage.remove(k);
                } else {
                    e.storage.insert(*k, v.present_value);
                }
            }
        }
    }
}

/// Hash and analysed form of a code, cached per thread.
fn analysed(code: &Bytes) -> (B256, Bytecode) {
    thread_local! {
        static CACHE: RefCell<std::collections::HashMap<Bytes, (B256, Bytecode)>> = RefCell::default();
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 1024 {
            c.clear();
        }
        c.entry(code.clone()).or_insert_with(|| (keccak256(code), bytecode_of(code))).clone()
    })
}
fn bytecode_of(code: &Bytes) -> Bytecode {
    Bytecode::new_raw(code.clone())
}

/// Database over a shared world.
#[derive(Clone, Debug)]
pub struct McDb {
    pub world: Arc<World>,
    codes: Arc<BTreeMap<Address, (B256, Bytecode)>>,
    by_hash: Arc<BTreeMap<B256, Bytecode>>,
    /// fails the n-th database access, counted over all reads
    pub fail_at: Option<u64>,
    /// every later access fails, too
    pub fail_rest: bool,
    pub reads: u64,
    pub block_hash_reads: Rc<RefCell<BTreeSet<u64>>>,
    /// when false, account records are served without their code bytes
    pub inline_code: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DbErr(pub String);
impl core::fmt::Display for DbErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for DbErr {}
impl revm::database_interface::DBErrorMarker for DbErr {}

impl McDb {
    pub fn new(world: &World) -> Self {
        let mut codes = BTreeMap::new();
        let mut by_hash = BTreeMap::new();
        for (a, x) in &world.accts {
            if !x.code.is_empty() {
                let (h, b) = analysed(&x.code);
                codes.insert(*a, (h, b.clone()));
                by_hash.insert(h, b);
            }
        }
        Self {
            world: Arc::new(world.clone()),
            codes: Arc::new(codes),
            by_hash: Arc::new(by_hash),
            fail_at: None,
            fail_rest: false,
            reads: 0,
            block_hash_reads: Rc::new(RefCell::new(BTreeSet::new())),
            inline_code: true,
        }
    }
    fn tick(&mut self) -> Result<(), DbErr> {
        let n = self.reads;
        self.reads += 1;
        if self.fail_at.is_some_and(|k| n == k || self.fail_rest && n > k) {
            return Err(DbErr(format!("injected database failure at read {n}")));
        }
        Ok(())
    }
}

pub fn block_hash_of(n: u64) -> B256 {
    keccak256(n.to_be_bytes())
}

impl Database for McDb {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DbErr> {
        self.tick()?;
        Ok(self.world.accts.get(&a).map(|x| {
            let (h, c) = self
                .codes
                .get(&a)
                .cloned()
                .map(|(h, c)| (h, Some(c)))
                .unwrap_or((KECCAK_EMPTY, Some(Bytecode::default())));
            AccountInfo {
                balance: x.balance,
                nonce: x.nonce,
                code_hash: h,
                code: if self.inline_code || h == KECCAK_EMPTY { c } else { None },
            }
        }))
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DbErr> {
        self.tick()?;
        Ok(self.by_hash.get(&h).cloned().unwrap_or_default())
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DbErr> {
        self.tick()?;
        Ok(self
            .world
            .accts
            .get(&a)
            .and_then(|x| x.storage.get(&k).copied())
            .unwrap_or_default())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        self.tick()?;
        self.block_hash_reads.borrow_mut().insert(n);
        Ok(block_hash_of(n))
    }
}

// ------------------------------------------------------------------ external environments

/// How the SALT environment answers: bucket capacities are a function of the bucket id.
#[derive(Debug, Clone)]
pub struct McSalt {
    /// bucket -> capacity; buckets not listed have the default capacity
    pub caps: Arc<BTreeMap<u32, u64>>,
    pub default_cap: u64,
    /// buckets whose lookup fails
    pub fail: Rc<RefCell<BTreeSet<u32>>>,
    /// every lookup, in order
    pub lookups: Rc<RefCell<Vec<u32>>>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SaltErr(pub u32);

/// The harness' own bucket function: accounts and slots spread over small disjoint ranges.
pub fn bucket_account(a: Address) -> u32 {
    let h = keccak256(a);
    1_000 + (u32::from_be_bytes([h[0], h[1], h[2], h[3]]) % 100_000)
}
pub fn bucket_slot(a: Address, k: U256) -> u32 {
    let mut v = a.to_vec();
    v.extend_from_slice(&k.to_be_bytes::<32>());
    let h = keccak256(v);
    1_000_000 + (u32::from_be_bytes([h[0], h[1], h[2], h[3]]) % 100_000)
}

impl Default for McSalt {
    fn default() -> Self {
        Self {
            caps: Arc::new(BTreeMap::new()),
            default_cap: 256,
            fail: Rc::new(RefCell::new(BTreeSet::new())),
            lookups: Rc::new(RefCell::new(Vec::new())),
        }
    }
}
/// A capacity that stands for different capacities of different buckets.
pub const MIXED: u64 = 0;
impl McSalt {
    pub fn uniform(cap: u64) -> Self {
        Self { default_cap: cap, ..Default::default() }
    }
    pub fn cap(&self, b: u32) -> u64 {
        if self.default_cap == MIXED {
            // every bucket its own capacity, multiple of the minimum or not
            let b = b as u64;
            return 256 * (1 + b % 5) + (b / 5 % 2) * 200;
        }
        self.caps.get(&b).copied().unwrap_or(self.default_cap)
    }
    pub fn mult_account(&self, a: Address) -> u64 {
        self.cap(bucket_account(a)) / 256
    }
    pub fn mult_slot(&self, a: Address, k: U256) -> u64 {
        self.cap(bucket_slot(a, k)) / 256
    }
}
impl SaltEnv for McSalt {
    type Error = SaltErr;
    fn get_bucket_capacity(&self, b: u32) -> Result<u64, SaltErr> {
        self.lookups.borrow_mut().push(b);
        if self.fail.borrow().contains(&b) {
            return Err(SaltErr(b));
        }
        Ok(self.cap(b))
    }
    fn bucket_id_for_account(a: Address) -> u32 {
        bucket_account(a)
    }
    fn bucket_id_for_slot(a: Address, k: U256) -> u32 {
        bucket_slot(a, k)
    }
}

#[derive(Debug, Clone, Default)]
pub struct McOracle {
    pub values: Arc<BTreeMap<U256, U256>>,
    pub hints: Rc<RefCell<Vec<(Address, B256, Bytes)>>>,
    /// interleaved log of reads and hints
    pub trace: Rc<RefCell<Vec<OracleEv>>>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum OracleEv {
    Read(U256),
    Hint(Address, B256, Bytes),
}
impl OracleEnv for McOracle {
    fn get_oracle_storage(&self, slot: U256) -> Option<U256> {
        self.trace.borrow_mut().push(OracleEv::Read(slot));
        self.values.get(&slot).copied()
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        self.trace.borrow_mut().push(OracleEv::Hint(from, topic, data.clone()));
        self.hints.borrow_mut().push((from, topic, data));
    }
}

#[derive(Debug, Clone, Default)]
pub struct McEnvs {
    pub salt: McSalt,
    pub oracle: McOracle,
}
impl ExternalEnvTypes for McEnvs {
    type SaltEnv = McSalt;
    type OracleEnv = McOracle;
}
impl McEnvs {
    pub fn envs(&self) -> ExternalEnvs<McEnvs> {
        ExternalEnvs { salt_env: self.salt.clone(), oracle_env: self.oracle.clone() }
    }
}
impl ExternalEnvFactory for McEnvs {
    type EnvTypes = McEnvs;
    fn external_envs(&self, _block: u64) -> ExternalEnvs<McEnvs> {
        self.envs()
    }
}

// ------------------------------------------------------------------ running

pub const HUGE_GAS: u64 = 1_000_000_000_000_000;

pub fn block_env() -> BlockEnv {
    BlockEnv {
        number: U256::from(1000),
        beneficiary: COINBASE,
        timestamp: U256::from(1_800_000_000u64),
        gas_limit: u64::MAX,
        basefee: 0,
        difficulty: U256::ZERO,
        prevrandao: Some(B256::repeat_byte(7)),
        blob_excess_gas_and_price: Some(
            revm::context_interface::block::BlobExcessGasAndPrice::new(0, 5007716),
        ),
    }
}

pub fn tx_call(from: Address, to: Address, data: Vec<u8>, value: u128) -> MegaTransaction {
    mk_tx(TxEnv {
        caller: from,
        kind: TxKind::Call(to),
        data: data.into(),
        value: U256::from(value),
        gas_limit: HUGE_GAS,
        gas_price: 0,
        chain_id: None,
        ..Default::default()
    })
}
pub fn tx_create(from: Address, init: Vec<u8>, value: u128) -> MegaTransaction {
    let mut t = tx_call(from, Address::ZERO, init, value);
    t.base.kind = TxKind::Create;
    t
}
pub fn mk_tx(base: TxEnv) -> MegaTransaction {
    let mut t = MegaTransaction::new(base);
    t.enveloped_tx = Some(Bytes::new());
    t
}
pub fn nonced(mut t: MegaTransaction, n: u64) -> MegaTransaction {
    t.base.nonce = n;
    t
}
pub fn with_gas(mut t: MegaTransaction, g: u64) -> MegaTransaction {
    t.base.gas_limit = g;
    t
}

pub type MegaErr = EVMError<DbErr, MegaTransactionError>;

/// Everything configurable about one execution.
#[derive(Clone, Debug)]
pub struct Setup {
    pub spec: MegaSpecId,
    pub block: BlockEnv,
    pub envs: McEnvs,
    pub limits: Option<EvmTxRuntimeLimits>,
    pub chain_id: u64,
    pub l1: L1BlockInfo,
}
impl Setup {
    pub fn new(spec: MegaSpecId) -> Self {
        Self {
            spec,
            block: block_env(),
            envs: McEnvs::default(),
            limits: None,
            chain_id: 1,
            l1: L1BlockInfo::default(),
        }
    }
    /// no resource limit binds
    pub fn unlimited(mut self) -> Self {
        self.limits = Some(EvmTxRuntimeLimits::no_limits());
        self
    }
    pub fn salt(mut self, cap: u64) -> Self {
        self.envs.salt = McSalt::uniform(cap);
        self
    }
}

pub fn mega_ctx(db: McDb, s: &Setup) -> MegaContext<McDb, McEnvs> {
    let mut cfg: CfgEnv<MegaSpecId> = CfgEnv::new_with_spec(s.spec);
    cfg.chain_id = s.chain_id;
    let mut ctx = MegaContext::new(db, s.spec)
        .with_external_envs(s.envs.envs())
        .with_cfg(cfg)
        .with_block(s.block.clone())
        .with_chain(s.l1.clone());
    if let Some(l) = s.limits {
        ctx = ctx.with_tx_runtime_limits(l);
    }
    ctx
}

pub fn mega_run(
    db: &McDb,
    s: &Setup,
    tx: MegaTransaction,
) -> Result<MegaTransactionOutcome, MegaErr> {
    let mut evm = MegaEvm::new(mega_ctx(db.clone(), s));
    evm.execute_transaction(tx)
}

/// Canonical, comparable view of an execution result.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Success { out: Bytes, created: Option<Address> },
    Revert { out: Bytes },
    Halt(String),
    Err(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub res: Res,
    pub gas_used: u64,
    pub logs: Vec<(Address, Vec<B256>, Bytes)>,
}

pub fn obs<H: core::fmt::Debug>(r: &ExecutionResult<H>) -> Obs {
    match r {
        ExecutionResult::Success { output, gas_used, logs, .. } => Obs {
            res: match output {
                Output::Call(b) => Res::Success { out: b.clone(), created: None },
                Output::Create(b, a) => Res::Success { out: b.clone(), created: *a },
            },
            gas_used: *gas_used,
            logs: logs
                .iter()
                .map(|l| (l.address, l.data.topics().to_vec(), l.data.data.clone()))
                .collect(),
        },
        ExecutionResult::Revert { gas_used, output } => {
            Obs { res: Res::Revert { out: output.clone() }, gas_used: *gas_used, logs: vec![] }
        }
        ExecutionResult::Halt { reason, gas_used } => {
            Obs { res: Res::Halt(halt_name(&format!("{reason:?}"))), gas_used: *gas_used, logs: vec![] }
        }
    }
}
/// `Base(X)` (the MegaETH wrapper) and `X` compare equal.
pub fn halt_name(s: &str) -> String {
    let mut t = s;
    while let Some(x) = t.strip_prefix("Base(") {
        t = &x[..x.len() - 1];
    }
    t.to_string()
}

pub fn post_world(pre: &World, st: &EvmState) -> World {
    let mut w = pre.clone();
    w.commit(st);
    w
}

pub fn is_limit_halt(h: &MegaHaltReason) -> bool {
    !matches!(h, MegaHaltReason::Base(_) | MegaHaltReason::SystemTxInvalidCallee { .. })
}

// ------------------------------------------------------------------ the base world

pub fn base_world() -> World {
    let mut w = World::default();
    w.set(CALLER, 1_000_000_000 * ETHER, 0, &[]);
    w.set(EOA, 7, 0, &[]);
    w
}
