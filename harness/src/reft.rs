//! The reference side: plain op-revm (Isthmus) runs the same transaction under an inspector that
//! derives, from the documented rules, what a MegaETH execution must account for.  It shares no
//! code with mega-evm.
use crate::common::*;
use alloy_primitives::{keccak256, Address, B256, U256};
use mega_evm::{MegaSpecId, MegaTransaction};
use op_revm::{DefaultOp, OpBuilder, OpContext, OpSpecId};
use revm::{
    context::{result::ExecutionResult, CfgEnv},
    interpreter::{
        interpreter::EthInterpreter,
        interpreter_types::{InputsTr, Jumps, LoopControl, MemoryTr},
        CallInputs, CallOutcome, CreateInputs, CreateOutcome, CreateScheme, FrameInput,
        Gas, InstructionResult, InterpreterAction, Interpreter, InterpreterResult,
    },
    primitives::{TxKind, KECCAK_EMPTY},
    state::EvmState,
    InspectEvm, Inspector,
};
use std::collections::{BTreeMap, BTreeSet};

/// Running totals after one accounting event.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Ev {
    pub compute: u64,
    pub data: i64,
    pub kv: i64,
    pub growth: i64,
    /// gas spent so far if the transaction stopped here and every live frame gave back its gas
    pub spent: u64,
    /// gas handed to a child that does not exist yet (non-zero at a forwarding opcode)
    pub in_flight: u64,
    /// the same before the 98/100 cap is applied
    pub in_flight_uncapped: u64,
    /// volatile data accessed before this event: block environment, oracle
    pub blk: bool,
    pub orc: bool,
    /// ... as far as the implementation has applied the lowered limit
    pub blk_applied: bool,
    pub orc_applied: bool,
    pub access: u16,
    pub kind: EvKind,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum EvKind {
    #[default]
    Op,
    Init,
    Call,
    Create,
    CreateStarted,
    Code,
    RevertedCode,
    Deposit,
    Precompile,
    Log,
    Sstore,
    Leave,
}

#[derive(Clone, Debug)]
struct Fr {
    target: Option<Address>,
    updated: bool,
    data: i64,
    kv: i64,
    growth: i64,
    gas: u64,
    // pending values set by step and used by step_end
    before: u64,
    opcode: u8,
    storage: u64,
    req: u64,
    log: Option<(u64, u64)>,
    sstore: Option<(U256, U256, U256)>,
    is_precompile: bool,
    /// sub-calls of this frame that counted the frame's account
    counted: u32,
    value_call: bool,
    cool_mark: usize,
    ref_gas: u64,
    pre_gas: Option<u64>,
    is_create: bool,
    gas_reads: Vec<u64>,
}
impl Fr {
    fn new(target: Option<Address>, updated: bool, gas: u64) -> Self {
        Fr {
            target,
            updated,
            data: 0,
            kv: 0,
            growth: 0,
            gas,
            before: 0,
            opcode: 0,
            storage: 0,
            req: 0,
            log: None,
            sstore: None,
            is_precompile: false,
            counted: 0,
            value_call: false,
            cool_mark: 0,
            ref_gas: 0,
            pre_gas: None,
            is_create: false,
            gas_reads: vec![],
        }
    }
}

/// Deviations of the implementation from the documented rules, each listed as a known finding.
/// The reference follows the documented rules unless a flag is set.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Quirks {
    /// a frame's account is counted again for every transferring/creating sub-call, unless the
    /// frame itself was entered by a transfer or a create (documented: at most once)
    pub caller_per_subcall: bool,
    /// a call-type instruction marks a pre-warmed address (precompile, beneficiary) that is not
    /// loaded yet as cold, so the access pays the cold surcharge
    pub inspect_cools: bool,
}
pub const DOC: Quirks = Quirks { caller_per_subcall: false, inspect_cools: false };
pub const IMPL: Quirks = Quirks { caller_per_subcall: true, inspect_cools: true };
/// The other combinations (the tree may have repaired some of the deviations).
pub const QUIRK_SETS: [Quirks; 3] = [
    DOC,
    Quirks { caller_per_subcall: true, ..DOC },
    Quirks { inspect_cools: true, ..DOC },
];

#[derive(Clone, Debug)]
pub struct RefTracker {
    spec: u8,
    salt: McSalt,
    tx_gas_limit: u64,
    /// gas limit of the reference transaction (the simulated one is `tx_gas_limit`)
    pub ref_gas_limit: u64,
    initial_storage: u64,
    creation_storage: u64,
    q: Quirks,
    pub compute: u64,
    pub storage_gas: u64,
    pub data: i64,
    pub kv: i64,
    pub growth: i64,
    pub evs: Vec<Ev>,
    frames: Vec<Fr>,
    child_gas: u64,
    pub final_gas: u64,
    pub final_refund: i64,
    pub top_ok: bool,
    pub top_ok_or_revert: bool,
    /// the simulated gas went negative: the reference cannot follow this run
    pub diverged: bool,
    /// the gas limit does not cover the intrinsic gas: rejected before execution
    pub rejected: bool,
    /// the gas limit does not cover the storage gas of the account created by the transaction
    pub initial_oog: bool,
    /// some frame ran out of the simulated gas
    pub oog: bool,
    /// a frame failed near the end of its gas: the exact halt reason is not predicted
    pub uncertain: bool,
    /// values read by the GAS instruction in frames that were not undone
    pub gas_reads: Vec<u64>,
    pub steps: u64,
    pub max_depth: usize,
    pub op_intrinsic: u64,
    pub buckets: BTreeSet<u32>,
    pub forwards_checked: u64,
    /// quirks that changed a number in this run
    pub hit: BTreeSet<&'static str>,
    beneficiary: Address,
    tx_caller: Address,
    pub blk: bool,
    pub orc: bool,
    blk_applied: bool,
    orc_applied: bool,
    pub access: u16,
    /// gas limit of every frame entered, in order (simulated)
    pub frame_gas: Vec<u64>,
    /// simulated gas left after every instruction
    pub gas_steps: Vec<u64>,
    pub record_steps: bool,
    uncapped: u64,
    /// pre-warmed addresses an inspection has put into the journal as cold
    cooled: BTreeMap<Address, bool>,
    cool_log: Vec<Address>,
    extra: u64,
    /// values the oracle service supplies
    oracle: std::sync::Arc<BTreeMap<U256, U256>>,
    /// (slot, supplied value, the slot was warm) of a pending read of the oracle's storage
    oracle_read: Option<(U256, Option<U256>, bool)>,
    /// what the oracle service must see
    pub oracle_trace: Vec<OracleEv>,
}

/// The hint in an input, in any form the contract's own Solidity decoding accepts (trailing
/// bytes, missing or dirty padding, a gap before the data).
pub fn decode_hint(input: &[u8]) -> Option<(B256, Vec<u8>)> {
    let sel = &keccak256("sendHint(bytes32,bytes)")[..4];
    if input.len() < 4 || &input[..4] != sel {
        return None;
    }
    let d = &input[4..];
    if d.len() < 64 {
        return None;
    }
    let topic = B256::from_slice(&d[..32]);
    let off: usize = word_at(d, 32).try_into().ok()?;
    let rest = d.get(off..)?;
    if rest.len() < 32 {
        return None;
    }
    let len: usize = word_at(rest, 0).try_into().ok()?;
    let data = rest[32..].get(..len)?;
    Some((topic, data.to_vec()))
}

fn cost_sstore(spec: u8, m: u64) -> u64 {
    if spec >= R_REX {
        20_000 * (m - 1)
    } else {
        2_000_000 * m
    }
}
fn cost_account(spec: u8, m: u64) -> u64 {
    if spec >= R_REX {
        25_000 * (m - 1)
    } else {
        2_000_000 * m
    }
}
fn cost_contract(spec: u8, m: u64) -> u64 {
    if spec >= R_REX {
        32_000 * (m - 1)
    } else {
        2_000_000 * m
    }
}

pub fn calldata_tokens(d: &[u8]) -> u64 {
    d.iter().map(|b| if *b == 0 { 1 } else { 4 }).sum()
}

/// Storage gas charged before execution starts (the documented formulas).
pub fn initial_storage_gas(
    spec: u8,
    salt: &McSalt,
    tx: &MegaTransaction,
    pre: &World,
) -> (u64, u64, Option<u32>) {
    if spec == 0 {
        return (0, 0, None);
    }
    let mut g = 40 * calldata_tokens(&tx.base.data);
    if spec >= R_REX {
        g += 39_000;
    }
    match tx.base.kind {
        TxKind::Create => {
            let a = tx.base.caller.create(tx.base.nonce);
            (g, cost_contract(spec, salt.mult_account(a)), Some(bucket_account(a)))
        }
        TxKind::Call(to) => {
            let empty = pre
                .accts
                .get(&to)
                .map(|a| a.balance.is_zero() && a.nonce == 0 && a.code.is_empty())
                .unwrap_or(true);
            if empty && !tx.base.value.is_zero() {
                (g, cost_account(spec, salt.mult_account(to)), Some(bucket_account(to)))
            } else {
                (g, 0, None)
            }
        }
    }
}

/// Data size and KV updates counted before the first frame.
pub fn initial_resources(tx: &MegaTransaction) -> (i64, i64) {
    let al: usize = tx
        .base
        .access_list
        .0
        .iter()
        .map(|i| 20 + 32 * i.storage_keys.len())
        .sum();
    let mut valid = 0i64;
    for a in &tx.base.authorization_list {
        use revm::context_interface::transaction::AuthorizationTr;
        if a.authority().is_some() {
            valid += 1;
        }
    }
    let d = 110 +
        tx.base.data.len() as i64 +
        al as i64 +
        101 * tx.base.authorization_list.len() as i64 +
        40 * valid +
        40;
    (d, 1 + valid)
}

type Ctx = OpContext<McDb>;

impl RefTracker {
    pub fn new(spec: MegaSpecId, salt: &McSalt, tx: &MegaTransaction, pre: &World, beneficiary: Address, q: Quirks) -> Self {
        let spec = rank(spec);
        let (d, k) = initial_resources(tx);
        let (a, b, bk) = initial_storage_gas(spec, salt, tx, pre);
        let mut buckets = BTreeSet::new();
        buckets.extend(bk);
        let mut t = Self {
            spec,
            salt: salt.clone(),
            tx_gas_limit: tx.base.gas_limit,
            ref_gas_limit: tx.base.gas_limit,
            initial_storage: a,
            creation_storage: b,
            q,
            compute: 0,
            storage_gas: a + b,
            data: d,
            kv: k,
            growth: 0,
            evs: vec![],
            frames: vec![],
            child_gas: 0,
            final_gas: 0,
            final_refund: 0,
            top_ok: false,
            top_ok_or_revert: false,
            diverged: false,
            rejected: false,
            initial_oog: false,
            oog: false,
            uncertain: false,
            gas_reads: vec![],
            steps: 0,
            max_depth: 0,
            op_intrinsic: 0,
            buckets,
            forwards_checked: 0,
            hit: BTreeSet::new(),
            beneficiary,
            tx_caller: tx.base.caller,
            blk: false,
            orc: false,
            blk_applied: false,
            orc_applied: false,
            access: 0,
            frame_gas: vec![],
            gas_steps: vec![],
            record_steps: false,
            uncapped: 0,
            cooled: BTreeMap::new(),
            cool_log: vec![],
            extra: 0,
            oracle: Default::default(),
            oracle_read: None,
            oracle_trace: vec![],
        };
        if tx.base.caller == beneficiary || tx.base.kind == TxKind::Call(beneficiary) {
            t.mark_blk(1 << 10);
        }
        t
    }
    fn live(&self) -> u64 {
        self.frames.iter().map(|f| f.gas).sum()
    }
    fn ev(&mut self, kind: EvKind, in_flight: u64) {
        let spent = self.tx_gas_limit.saturating_sub(self.live() + in_flight);
        self.evs.push(Ev {
            compute: self.compute,
            data: self.data,
            kv: self.kv,
            growth: self.growth,
            spent,
            in_flight,
            in_flight_uncapped: if in_flight > 0 { self.uncapped } else { 0 },
            blk: self.blk,
            orc: self.orc,
            blk_applied: self.blk_applied,
            orc_applied: self.orc_applied,
            access: self.access,
            kind,
        });
    }
    fn mark_blk(&mut self, bit: u16) {
        if self.spec >= R_MINI {
            self.blk = true;
            self.access |= bit;
        }
    }
    fn mark_orc(&mut self) {
        self.orc = true;
        self.access |= 1 << 11;
    }
    fn apply_marks(&mut self) {
        self.blk_applied = self.blk;
        self.orc_applied = self.orc;
    }
    fn add(&mut self, d: i64, k: i64, g: i64) {
        self.data += d;
        self.kv += k;
        self.growth += g;
        if let Some(f) = self.frames.last_mut() {
            f.data += d;
            f.kv += k;
            f.growth += g;
        }
    }
    fn acct_empty(ctx: &mut Ctx, a: Address) -> bool {
        if let Some(x) = ctx.journaled_state.inner.state.get(&a) {
            return x.info.balance.is_zero() && x.info.nonce == 0 && x.info.code_hash == KECCAK_EMPTY;
        }
        ctx.journaled_state
            .database
            .world
            .accts
            .get(&a)
            .map(|x| x.balance.is_zero() && x.nonce == 0 && x.code.is_empty())
            .unwrap_or(true)
    }
    fn slot_values(ctx: &mut Ctx, a: Address, k: U256) -> (U256, U256) {
        if let Some(x) = ctx.journaled_state.inner.state.get(&a) {
            if let Some(s) = x.storage.get(&k) {
                return (s.original_value, s.present_value);
            }
            if x.is_created() {
                return (U256::ZERO, U256::ZERO);
            }
        }
        let v = ctx
            .journaled_state
            .database
            .world
            .accts
            .get(&a)
            .and_then(|x| x.storage.get(&k).copied())
            .unwrap_or_default();
        (v, v)
    }
    fn enter(&mut self, gas_limit: u64, fr: impl FnOnce(u64) -> Fr) {
        let g = if self.frames.is_empty() {
            self.op_intrinsic = self.ref_gas_limit - gas_limit;
            self.compute += self.op_intrinsic;
            match self.tx_gas_limit.checked_sub(self.op_intrinsic + self.initial_storage) {
                Some(g) => match g.checked_sub(self.creation_storage) {
                    Some(g) => g,
                    None => {
                        self.initial_oog = true;
                        self.oog = true;
                        0
                    }
                },
                None => {
                    self.rejected = true;
                    0
                }
            }
        } else {
            self.child_gas
        };
        let mut f = fr(g);
        f.cool_mark = self.cool_log.len();
        f.ref_gas = gas_limit;
        self.frames.push(f);
        self.frame_gas.push(g);
        if self.frames.len() == 1 {
            self.ev(EvKind::Init, 0);
        }
        self.max_depth = self.max_depth.max(self.frames.len());
    }
    fn count_parent_update(&mut self) {
        let n = self.frames.len();
        if n < 2 {
            return;
        }
        if !self.frames[n - 2].updated {
            if self.frames[n - 2].counted > 0 {
                self.hit.insert("caller_counted_per_subcall");
            }
            self.add(40, 1, 0);
        }
    }
    fn leave(&mut self, ok: bool, ok_or_revert: bool, refund: i64) {
        let f = self.frames.pop().expect("frame");
        if ok {
            if let Some(p) = self.frames.last_mut() {
                p.data += f.data;
                p.kv += f.kv;
                p.growth += f.growth;
                p.gas_reads.extend(&f.gas_reads);
            } else {
                self.gas_reads = f.gas_reads.clone();
            }
        } else {
            self.data -= f.data;
            self.kv -= f.kv;
            self.growth -= f.growth;
        }
        if !ok {
            for a in self.cool_log.drain(f.cool_mark..) {
                self.cooled.insert(a, true);
            }
        }
        let back = if ok_or_revert { f.gas } else { 0 };
        if let Some(p) = self.frames.last_mut() {
            p.gas += back;
            if ok && f.value_call {
                if !self.q.caller_per_subcall {
                    p.updated = true;
                }
                p.counted += 1;
            }
        } else {
            self.final_gas = back;
            self.final_refund = refund;
            self.top_ok = ok;
            self.top_ok_or_revert = ok_or_revert;
        }
        self.ev(EvKind::Leave, 0);
    }
    /// (data, kv, growth) as reported at the end of a run that no limit stopped
    pub fn usage(&self) -> (u64, u64, u64) {
        (self.data.max(0) as u64, self.kv.max(0) as u64, self.growth.max(0) as u64)
    }
    /// Gas used as reported in the receipt.
    pub fn gas_used(&self, floor: u64, extra_refund: i64) -> u64 {
        let spent = self.tx_gas_limit - self.final_gas;
        let refund = if self.top_ok { self.final_refund } else { 0 } + extra_refund;
        let refund = (refund.max(0) as u64).min(spent / 5);
        (spent - refund).max(floor).min(self.tx_gas_limit)
    }
}

/// Gas of the precompiles whose price differs from Isthmus (EIP-7883 modexp, KZG at 100,000).
pub fn precompile_gas(spec: u8, a: Address, input: &[u8]) -> Option<u64> {
    if spec < R_MINI {
        return None;
    }
    if a == Address::with_last_byte(5) {
        return Some(modexp_gas(input));
    }
    if a == Address::with_last_byte(10) {
        return Some(100_000);
    }
    None
}
fn word_at(input: &[u8], o: usize) -> U256 {
    let mut b = [0u8; 32];
    for (i, x) in b.iter_mut().enumerate() {
        *x = input.get(o + i).copied().unwrap_or(0);
    }
    U256::from_be_bytes(b)
}
/// EIP-7883.
pub fn modexp_gas(input: &[u8]) -> u64 {
    let (bl, el, ml) = (word_at(input, 0), word_at(input, 32), word_at(input, 64));
    if bl.is_zero() && ml.is_zero() {
        return 500;
    }
    let big = U256::from(1u64 << 32);
    if bl > big || el > big || ml > big {
        return u64::MAX;
    }
    let (bl, el, ml) = (bl.to::<u64>(), el.to::<u64>(), ml.to::<u64>());
    let max = bl.max(ml);
    let words = max.div_ceil(8) as u128;
    let mult = if max <= 32 { 16 } else { 2 * words * words };
    let head_len = el.min(32) as usize;
    let mut head = [0u8; 32];
    for i in 0..head_len {
        head[32 - head_len + i] = input.get(96 + bl as usize + i).copied().unwrap_or(0);
    }
    let head = U256::from_be_bytes(head);
    let bits = (head.bit_len() as u128).saturating_sub(1);
    let iter = if el <= 32 { bits } else { 16 * (el as u128 - 32) + bits };
    (mult * iter.max(1)).max(500).try_into().unwrap_or(u64::MAX)
}

fn is_oog(r: InstructionResult) -> bool {
    use InstructionResult::*;
    matches!(
        r,
        OutOfGas |
            MemoryOOG |
            MemoryLimitOOG |
            PrecompileOOG |
            InvalidOperandOOG |
            ReentrancySentryOOG
    )
}

fn is_precompile(a: Address) -> bool {
    let b = a.as_slice();
    if b[..18].iter().any(|x| *x != 0) {
        return false;
    }
    let v = u16::from_be_bytes([b[18], b[19]]);
    (1..=0x11).contains(&v) || v == 0x100
}

impl Inspector<Ctx, EthInterpreter> for RefTracker {
    fn step(&mut self, i: &mut Interpreter<EthInterpreter>, ctx: &mut Ctx) {
        self.steps += 1;
        let op = i.bytecode.opcode();
        let before = i.gas.remaining();
        let peek = |n: usize| i.stack.peek(n).ok();
        let spec = self.spec;
        let me = i.input.target_address();
        let mut storage = 0u64;
        let mut req = u64::MAX;
        let mut log = None;
        let mut sst = None;
        match op {
            0x55 => {
                if let (Some(k), Some(v)) = (peek(0), peek(1)) {
                    let (o, p) = Self::slot_values(ctx, me, k);
                    sst = Some((o, p, v));
                    if o.is_zero() && p.is_zero() && !v.is_zero() {
                        storage = cost_sstore(spec, self.salt.mult_slot(me, k));
                        self.buckets.insert(bucket_slot(me, k));
                    }
                }
            }
            0xa0..=0xa4 => {
                if let Some(len) = peek(1) {
                    let n = (op - 0xa0) as u64;
                    let len: u64 = len.try_into().unwrap_or(u64::MAX / 1000);
                    storage = 3750 * n + 80 * len;
                    log = Some((n, len));
                }
            }
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                if let (Some(g), Some(to)) = (peek(0), peek(1)) {
                    req = g.try_into().unwrap_or(u64::MAX);
                    let to = Address::from_word(to.into());
                    if op <= 0xf2 && (op == 0xf1 || spec >= R_REX) {
                        if let Some(v) = peek(2) {
                            if !v.is_zero() && Self::acct_empty(ctx, to) {
                                storage = cost_account(spec, self.salt.mult_account(to));
                                self.buckets.insert(bucket_account(to));
                            }
                        }
                    }
                }
            }
            0xf0 | 0xf5 => {
                let a = if op == 0xf0 {
                    let n = ctx.journaled_state.inner.state.get(&me).map(|x| x.info.nonce);
                    n.map(|n| me.create(n))
                } else if let (Some(off), Some(len), Some(salt)) = (peek(1), peek(2), peek(3)) {
                    let off: usize = off.try_into().unwrap_or(usize::MAX);
                    let len: usize = len.try_into().unwrap_or(usize::MAX);
                    if len < 1 << 24 && off < 1 << 24 {
                        let size = i.memory.size();
                        let mut code = vec![0u8; len];
                        for (j, b) in code.iter_mut().enumerate() {
                            if off + j < size {
                                *b = i.memory.slice(off + j..off + j + 1)[0];
                            }
                        }
                        Some(me.create2(salt.to_be_bytes::<32>(), keccak256(&code)))
                    } else {
                        None
                    }
                } else {
                    None
                };
                if let Some(a) = a {
                    storage = cost_contract(spec, self.salt.mult_account(a));
                    self.buckets.insert(bucket_account(a));
                }
            }
            _ => {}
        }
        match op {
            // the range check reads the block number
            0x40 => self.mark_blk(1 << 7 | 1 << 0),
            0x41 => self.mark_blk(1 << 2),
            0x42 => self.mark_blk(1 << 1),
            0x43 => self.mark_blk(1 << 0),
            0x44 => self.mark_blk(1 << 6),
            0x45 => self.mark_blk(1 << 4),
            0x48 => self.mark_blk(1 << 5),
            0x49 => self.mark_blk(1 << 9),
            0x4a => self.mark_blk(1 << 8),
            0x31 | 0x3b | 0x3c | 0x3f => {
                if peek(0).is_some_and(|a| Address::from_word(a.into()) == self.beneficiary) {
                    self.mark_blk(1 << 10);
                }
            }
            0x47 if me == self.beneficiary => self.mark_blk(1 << 10),
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                if peek(1).is_some_and(|a| Address::from_word(a.into()) == self.beneficiary) {
                    self.mark_blk(1 << 10);
                }
            }
            0x54 if spec >= R_REX3 && me == ORACLE && self.tx_caller != SYSTEM_ADDR => {
                self.mark_orc();
            }
            _ => {}
        }
        self.extra = 0;
        if op == 0x54 && me == ORACLE && spec >= R_MINI {
            // the oracle's storage is always read cold
            if let Some(k) = peek(0) {
                let warm = ctx
                    .journaled_state
                    .inner
                    .state
                    .get(&me)
                    .and_then(|a| a.storage.get(&k))
                    .is_some_and(|s| !s.is_cold);
                if warm {
                    self.extra = 2000;
                }
                self.oracle_read = Some((k, self.oracle.get(&k).copied(), warm));
            }
        }
        if self.q.inspect_cools && spec > 0 {
            let acc = match op {
                0x31 | 0x3b | 0x3c | 0x3f | 0xff => peek(0),
                0xf1 | 0xf2 | 0xf4 | 0xfa => peek(1),
                _ => None,
            };
            if let Some(to) = acc {
                let to = Address::from_word(to.into());
                let inspects = op == 0xf1 || (op > 0xf1 && op != 0xff && spec >= R_REX);
                let prewarmed = is_precompile(to) || to == self.beneficiary;
                if prewarmed {
                    let loaded = ctx.journaled_state.inner.state.contains_key(&to);
                    if inspects && !loaded && !self.cooled.contains_key(&to) {
                        self.cooled.insert(to, true);
                    }
                    if self.cooled.get(&to) == Some(&true) {
                        self.extra = 2500;
                        self.cooled.insert(to, false);
                        self.cool_log.push(to);
                        self.hit.insert("prewarmed_address_charged_cold");
                    }
                }
            }
        }
        let f = self.frames.last_mut().expect("frame");
        f.before = before;
        f.opcode = op;
        f.storage = if spec == 0 { 0 } else { storage };
        f.req = req;
        f.log = log;
        f.sstore = sst;
        if op == 0xff && (R_MINI..R_REX2).contains(&spec) {
            // SELFDESTRUCT does not exist in these specs
            i.halt(InstructionResult::InvalidFEOpcode);
        }
    }

    fn step_end(&mut self, i: &mut Interpreter<EthInterpreter>, ctx: &mut Ctx) {
        let spec = self.spec;
        let oracle_read = self.oracle_read.take();
        let failed = i.bytecode.instruction_result().is_some_and(|r| r.is_error());
        if failed {
            // the simulated gas does not exceed the reference's, so whatever fails there fails
            // here; except when a child burnt all it got and 98/100 left the parent more
            let oog = i.bytecode.instruction_result().is_some_and(is_oog);
            let f = self.frames.last().expect("frame");
            if oog {
                self.oog = true;
                self.diverged |= f.gas > f.before;
            } else if f.gas < f.storage + 50_000 {
                self.uncertain = true;
            }
            return;
        }
        let after = i.gas.remaining();
        let (child, stipend, is_call) = match i.bytecode.action() {
            Some(InterpreterAction::NewFrame(FrameInput::Call(c))) => {
                let st = if c.transfers_value() { 2300 } else { 0 };
                (Some(c.gas_limit), st, true)
            }
            Some(InterpreterAction::NewFrame(FrameInput::Create(c))) => (Some(c.gas_limit), 0, false),
            _ => (None, 0, false),
        };
        let f = self.frames.last_mut().expect("frame");
        let raw = f.before - after;
        let forwarded = child.map(|c| c - stipend).unwrap_or(0);
        let base = raw - forwarded;
        // net of the stipend handed to the child
        let base = base + self.extra;
        let compute = base.saturating_sub(stipend);
        let storage = f.storage;
        let sentry = f.opcode == 0x55 && f.gas <= storage.saturating_add(2300);
        match f.gas.checked_sub(base.saturating_add(storage)) {
            Some(g) if !sentry => f.gas = g,
            _ => {
                f.gas = 0;
                self.oog = true;
                i.halt(InstructionResult::OutOfGas);
                return;
            }
        }
        if let Some((k, v, warm)) = oracle_read {
            self.oracle_trace.push(OracleEv::Read(k));
            if let Some(v) = v {
                let _ = i.stack.pop();
                let _ = i.stack.push(v);
                if !warm {
                    // the state was not asked
                    let a = ctx.journaled_state.inner.state.get_mut(&ORACLE);
                    if let Some(x) = a.and_then(|a| a.storage.get_mut(&k)) {
                        x.is_cold = true;
                    }
                }
            }
        }
        if f.opcode == 0x5a {
            f.gas_reads.push(f.gas);
        }
        if f.is_create && f.opcode == 0xf3 {
            if let Some(InterpreterAction::Return(r)) = i.bytecode.action() {
                let n = r.output.len() as u64;
                let sg = if spec == 0 { 0 } else { 10_000 * n };
                let max = if spec == 0 { 24_576 } else { 512 * 1024 };
                let stored = r.output.first() != Some(&0xef) && n <= max;
                if f.gas < sg || (stored && f.gas < sg + 200 * n) {
                    f.gas = 0;
                    self.oog = true;
                    i.halt(InstructionResult::OutOfGas);
                    return;
                }
            }
        }
        let mut fwd = false;
        if child.is_some() {
            let r = f.gas;
            let cap64 = r - r / 64;
            let capped = if spec == 0 {
                cap64
            } else {
                let cap98 = (r as u128 - (r as u128) * 2 / 100) as u64;
                match f.opcode {
                    0xf1 | 0xf0 | 0xf5 => cap64.min(cap98),
                    _ if spec >= R_REX => cap64.min(cap98),
                    _ => cap64,
                }
            };
            let give = if is_call { f.req.min(capped) } else { capped };
            self.uncapped = if is_call { f.req.min(cap64) } else { cap64 };
            f.gas -= give;
            self.child_gas = give + stipend;
            fwd = true;
            self.forwards_checked += 1;
        }
        let (log, sst) = (f.log.take(), f.sstore.take());
        let opc = f.opcode;
        let left = f.gas;
        if self.record_steps {
            self.gas_steps.push(left);
        }
        self.storage_gas += storage;
        self.compute += compute;
        let in_flight = if fwd { self.child_gas - stipend } else { 0 };
        self.ev(EvKind::Op, in_flight);
        match opc {
            0x40..=0x45 | 0x48..=0x4a | 0x31 | 0x3b | 0x3c | 0x3f => self.apply_marks(),
            0x54 if spec >= R_REX3 => self.apply_marks(),
            _ => {}
        }
        if let Some((n, len)) = log {
            self.add((32 * n + len) as i64, 0, 0);
            self.ev(EvKind::Log, 0);
        }
        if let Some((o, p, v)) = sst {
            let (d, k) = if o == p && o != v {
                (40, 1)
            } else if o != p && o == v {
                (-40, -1)
            } else {
                (0, 0)
            };
            let g = match (o.is_zero(), p.is_zero(), v.is_zero()) {
                (true, true, false) => 1,
                (true, false, true) => -1,
                _ => 0,
            };
            self.add(d, k, g);
            self.ev(EvKind::Sstore, 0);
        }
    }

    fn call(&mut self, ctx: &mut Ctx, c: &mut CallInputs) -> Option<CallOutcome> {
        let tr = c.transfers_value();
        let target = c.target_address;
        let empty = Self::acct_empty(ctx, target);
        let pre = is_precompile(c.bytecode_address);
        let pre_gas = if pre {
            precompile_gas(self.spec, c.bytecode_address, &c.input.bytes(ctx))
        } else {
            None
        };
        self.enter(c.gas_limit, |g| {
            let mut f = Fr::new(Some(target), tr, g);
            f.is_precompile = pre;
            f.pre_gas = pre_gas;
            f.value_call = tr;
            f
        });
        if self.rejected || self.initial_oog {
            return Some(oog_call(c));
        }
        if self.spec >= R_REX2 && target == ORACLE {
            if let Some((topic, data)) = decode_hint(&c.input.bytes(ctx)) {
                self.oracle_trace.push(OracleEv::Hint(c.caller, topic, data.into()));
            }
        }
        if target == ORACLE &&
            self.spec >= R_MINI &&
            self.spec < R_REX3 &&
            c.caller != SYSTEM_ADDR
        {
            self.mark_orc();
            self.apply_marks();
        }
        if tr {
            self.count_parent_update();
            self.add(40, 1, 0);
            if empty {
                self.add(0, 0, 1);
            }
        }
        self.ev(EvKind::Call, 0);
        if pre {
            if self.spec >= R_MINI && c.bytecode_address == Address::with_last_byte(5) {
                // EIP-7823: no operand longer than 1024 bytes
                let input = c.input.bytes(ctx);
                if (0..3).any(|k| word_at(&input, 32 * k) > U256::from(1024)) {
                    self.uncertain |= self.frames.last().unwrap().gas < 50_000;
                    let mut o = oog_call(c);
                    o.result.result = InstructionResult::PrecompileError;
                    return Some(o);
                }
            }
            let f = self.frames.last_mut().unwrap();
            let need = pre_gas.or_else(|| plain_precompile_gas(c.bytecode_address, c.input.len()));
            if need.is_some_and(|n| n > f.gas) {
                self.oog = true;
                return Some(oog_call(c));
            }
        }
        None
    }
    fn call_end(&mut self, _ctx: &mut Ctx, _c: &CallInputs, o: &mut CallOutcome) {
        let r = o.result.result;
        let f = self.frames.last_mut().expect("frame");
        if f.is_precompile {
            let spent = f.pre_gas.unwrap_or(o.result.gas.spent());
            if r.is_ok() && spent > f.gas {
                self.diverged = true;
            }
            if is_oog(r) {
                self.oog = true;
            }
            if r.is_ok() {
                f.gas = f.gas.saturating_sub(spent);
                self.compute += spent;
                self.ev(EvKind::Precompile, 0);
            }
        }
        self.leave(r.is_ok(), r.is_ok_or_revert(), o.result.gas.refunded());
    }
    fn create(&mut self, ctx: &mut Ctx, c: &mut CreateInputs) -> Option<CreateOutcome> {
        let _ = ctx;
        let _ = matches!(c.scheme, CreateScheme::Create);
        self.enter(c.gas_limit, |g| {
            let mut f = Fr::new(None, true, g);
            f.value_call = true;
            f.is_create = true;
            f
        });
        if self.rejected || self.initial_oog {
            return Some(CreateOutcome::new(oog_result(c.gas_limit), None));
        }
        self.count_parent_update();
        self.add(0, 0, 1);
        self.ev(EvKind::Create, 0);
        None
    }
    fn initialize_interp(&mut self, _i: &mut Interpreter<EthInterpreter>, _ctx: &mut Ctx) {
        // a create frame that really starts has a created account
        let create = self.frames.last().is_some_and(|f| f.target.is_none());
        if create {
            self.frames.last_mut().unwrap().target = Some(Address::ZERO);
            self.add(40, 1, 0);
            self.ev(EvKind::CreateStarted, 0);
        }
    }
    fn create_end(&mut self, _ctx: &mut Ctx, _c: &CreateInputs, o: &mut CreateOutcome) {
        let r = o.result.result;
        if is_oog(r) {
            self.oog = true;
        }
        if r.is_ok() {
            let n = o.result.output.len() as u64;
            let f = self.frames.last_mut().expect("frame");
            let sg = if self.spec == 0 { 0 } else { 10_000 * n };
            match f.gas.checked_sub(sg + 200 * n) {
                Some(g) => f.gas = g,
                None => {
                    self.diverged = true;
                    f.gas = 0
                }
            }
            self.storage_gas += sg;
            self.add(n as i64, 0, 0);
            self.frames.last_mut().unwrap().gas += 200 * n;
            self.ev(EvKind::Code, 0);
            self.frames.last_mut().unwrap().gas -= 200 * n;
            self.compute += 200 * n;
            self.ev(EvKind::Deposit, 0);
        } else if self.frames.last().is_some_and(|f| f.target.is_some()) {
            let n = o.result.output.len() as i64;
            let ret = self.frames.last().is_some_and(|f| f.opcode == 0xf3);
            if ret && self.spec > 0 {
                let f = self.frames.last_mut().unwrap();
                f.gas = f.gas.saturating_sub(10_000 * n as u64);
            }
            self.add(n, 0, 0);
            self.ev(if ret { EvKind::Code } else { EvKind::RevertedCode }, 0);
            self.add(-n, 0, 0);
        }
        self.leave(r.is_ok(), r.is_ok_or_revert(), o.result.gas.refunded());
    }
}

fn oog_result(gas: u64) -> InterpreterResult {
    InterpreterResult::new(InstructionResult::OutOfGas, Default::default(), Gas::new_spent(gas))
}
fn oog_call(c: &CallInputs) -> CallOutcome {
    CallOutcome::new(oog_result(c.gas_limit), c.return_memory_offset.clone())
}
/// Gas of the precompiles priced by input length only.
fn plain_precompile_gas(a: Address, len: usize) -> Option<u64> {
    let w = len.div_ceil(32) as u64;
    match a.as_slice()[19] {
        1 if is_precompile(a) => Some(3000),
        2 => Some(60 + 12 * w),
        3 => Some(600 + 120 * w),
        4 => Some(15 + 3 * w),
        _ => None,
    }
}

pub struct RefOut {
    pub result: Result<(ExecutionResult<op_revm::OpHaltReason>, EvmState), String>,
    pub t: RefTracker,
}

/// Runs `tx` on plain op-revm at Isthmus with MegaETH's contract-size limits when the spec has
/// them.
pub fn ref_run(db: &McDb, s: &Setup, tx: &MegaTransaction, q: Quirks) -> RefOut {
    let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
    cfg.chain_id = s.chain_id;
    if rank(s.spec) >= R_MINI {
        cfg.limit_contract_code_size = Some(512 * 1024);
        cfg.limit_contract_initcode_size = Some(536 * 1024);
    }
    let ctx: Ctx = revm::Context::op()
        .with_db(db.clone())
        .with_cfg(cfg)
        .with_block(s.block.clone())
        .with_chain(s.l1.clone());
    let mut t = RefTracker::new(s.spec, &s.envs.salt, tx, &db.world, s.block.beneficiary, q);
    t.oracle = s.envs.oracle.values.clone();
    let mut tx2 = tx.clone();
    if tx.deposit.source_hash.is_zero() && tx.base.gas_price == 0 {
        // the reference always has enough gas; the simulated gas decides
        tx2.base.gas_limit = HUGE_GAS;
    }
    t.ref_gas_limit = tx2.base.gas_limit;
    let mut evm = ctx.build_op_with_inspector(t);
    let r = evm.inspect_tx(tx2);
    let t = evm.0.inspector.clone();
    RefOut {
        result: match r {
            Ok(x) => Ok((x.result, x.state)),
            Err(e) => Err(format!("{e:?}")),
        },
        t,
    }
}

/// Plain op-revm system call.
pub fn op_system_call(
    db: &McDb,
    s: &Setup,
    caller: Address,
    to: Address,
    data: alloy_primitives::Bytes,
) -> Result<(ExecutionResult<op_revm::OpHaltReason>, EvmState), String> {
    use revm::handler::SystemCallEvm;
    let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
    cfg.chain_id = s.chain_id;
    let ctx: Ctx = revm::Context::op().with_db(db.clone()).with_cfg(cfg).with_block(s.block.clone()).with_chain(s.l1.clone());
    let mut evm = ctx.build_op();
    match evm.transact_system_call_with_caller_finalize(caller, to, data) {
        Ok(x) => Ok((x.result, x.state)),
        Err(e) => Err(format!("{e:?}")),
    }
}

/// Plain op-revm run, no inspector.
pub fn op_run(
    db: &McDb,
    s: &Setup,
    tx: &MegaTransaction,
) -> Result<(ExecutionResult<op_revm::OpHaltReason>, EvmState), String> {
    use revm::ExecuteEvm;
    let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
    cfg.chain_id = s.chain_id;
    let ctx: Ctx = revm::Context::op()
        .with_db(db.clone())
        .with_cfg(cfg)
        .with_block(s.block.clone())
        .with_chain(s.l1.clone());
    let mut evm = ctx.build_op();
    match evm.transact(tx.clone()) {
        Ok(x) => Ok((x.result, x.state)),
        Err(e) => Err(format!("{e:?}")),
    }
}

