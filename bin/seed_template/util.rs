#![allow(dead_code, unused_imports)]
pub use alloy_primitives::{address, b256, keccak256, Address, Bytes, B256, U256};
pub use mega_evm::*;
pub use revm::{
    bytecode::Bytecode,
    context::{result::ExecutionResult, BlockEnv, TxEnv},
    database::{CacheDB, EmptyDB},
    primitives::TxKind,
    state::AccountInfo,
};
pub type Db = CacheDB<EmptyDB>;
pub const SENDER: Address = address!("00000000000000000000000000000000000c0001");
pub const A: Address = address!("0000000000000000000000000000000000aa0001");
pub const B: Address = address!("0000000000000000000000000000000000bb0001");
pub const COINBASE: Address = address!("00000000000000000000000000000000c01ba5e1");

pub fn db(codes: &[(Address, Vec<u8>)]) -> Db {
    let mut d = Db::default();
    let bal = U256::from(10u64).pow(U256::from(24));
    d.insert_account_info(SENDER, AccountInfo { balance: bal, ..Default::default() });
    for (a, c) in codes {
        let code = Bytecode::new_raw(c.clone().into());
        d.insert_account_info(
            *a,
            AccountInfo { balance: bal, nonce: 1, code_hash: code.hash_slow(), code: Some(code) },
        );
    }
    d
}
pub fn block() -> BlockEnv {
    BlockEnv {
        number: U256::from(1000),
        beneficiary: COINBASE,
        timestamp: U256::from(1_800_000_000u64),
        gas_limit: u64::MAX,
        prevrandao: Some(B256::ZERO),
        ..Default::default()
    }
}
pub fn tx(to: Option<Address>, data: Vec<u8>, gas: u64) -> MegaTransaction {
    let mut t = MegaTransaction::new(TxEnv {
        caller: SENDER,
        kind: to.map(TxKind::Call).unwrap_or(TxKind::Create),
        data: data.into(),
        gas_limit: gas,
        gas_price: 0,
        chain_id: None,
        ..Default::default()
    });
    t.enveloped_tx = Some(Bytes::new());
    t
}
pub fn ctx(d: Db, spec: MegaSpecId, limits: EvmTxRuntimeLimits) -> MegaContext<Db, EmptyExternalEnv> {
    MegaContext::new(d, spec).with_block(block()).with_tx_runtime_limits(limits)
}
pub fn run(d: &Db, spec: MegaSpecId, limits: EvmTxRuntimeLimits, t: MegaTransaction) -> MegaTransactionOutcome {
    MegaEvm::new(ctx(d.clone(), spec, limits)).execute_transaction(t).expect("accepted")
}
pub fn check(ok: bool, what: &str) {
    if ok {
        println!("ok: {what}");
    } else {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
/// CALL(gas, to, value, in, insize, 0, 0) POP
pub fn call(op: u8, to: Address, value: u8, insize: u8) -> Vec<u8> {
    let mut v = vec![0x5f, 0x5f, 0x60, insize, 0x5f];
    if op == 0xf1 || op == 0xf2 {
        v.extend([0x60, value]);
    }
    v.push(0x73);
    v.extend(to.as_slice());
    v.extend([0x5a, op, 0x50]);
    v
}
use std::{cell::RefCell, collections::HashMap as Map, convert::Infallible, rc::Rc};
#[derive(Clone, Debug, PartialEq)]
pub struct Hint {
    pub from: Address,
    pub topic: B256,
    pub data: Bytes,
}
/// Bucket sizes, oracle answers and received hints.
#[derive(Clone, Debug, Default)]
pub struct TestExternalEnvs {
    caps: Rc<RefCell<Map<BucketId, u64>>>,
    slots: Rc<RefCell<Map<U256, U256>>>,
    hints: Rc<RefCell<Vec<Hint>>>,
}
impl TestExternalEnvs {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_bucket_capacity(self, id: BucketId, n: u64) -> Self {
        self.caps.borrow_mut().insert(id, n);
        self
    }
    pub fn with_oracle_storage(self, k: U256, v: U256) -> Self {
        self.slots.borrow_mut().insert(k, v);
        self
    }
    pub fn recorded_hints(&self) -> Vec<Hint> {
        self.hints.borrow().clone()
    }
    pub fn envs(&self) -> ExternalEnvs<Self> {
        ExternalEnvs { salt_env: self.clone(), oracle_env: self.clone() }
    }
}
impl ExternalEnvTypes for TestExternalEnvs {
    type SaltEnv = Self;
    type OracleEnv = Self;
}
impl SaltEnv for TestExternalEnvs {
    type Error = Infallible;
    fn get_bucket_capacity(&self, id: BucketId) -> Result<u64, Infallible> {
        Ok(self.caps.borrow().get(&id).copied().unwrap_or(256))
    }
    fn bucket_id_for_account(a: Address) -> BucketId {
        u32::from_be_bytes(keccak256(a)[..4].try_into().unwrap()) as BucketId
    }
    fn bucket_id_for_slot(a: Address, k: U256) -> BucketId {
        u32::from_be_bytes(keccak256([a.as_slice(), &k.to_be_bytes::<32>()].concat())[..4].try_into().unwrap()) as BucketId
    }
}
impl OracleEnv for TestExternalEnvs {
    fn get_oracle_storage(&self, k: U256) -> Option<U256> {
        self.slots.borrow().get(&k).copied()
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        self.hints.borrow_mut().push(Hint { from, topic, data });
    }
}
