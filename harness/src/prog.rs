//! Bounded program trees: the alphabet of behaviours, their exhaustive enumeration by rank, and
//! their compilation to EVM bytecode.
use crate::common::*;
use alloy_primitives::{Address, U256};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CK {
    Call,
    CallCode,
    Delegate,
    Static,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum G {
    All,
    Lim(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Sstore(u64, u64),
    Sload(u64),
    Tstore(u64, u64),
    Log(u8, u64),
    /// stack-neutral raw code
    Raw(&'static str, Vec<u8>),
    SelfDestruct(Address),
    Call { kind: CK, to: Address, value: u64, gas: G, body: Option<Body> },
    Create { two: bool, value: u64, init: Body },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Stop,
    Revert,
    Invalid,
    /// RETURN n bytes of zero memory
    Return(u64),
    /// RETURN n bytes starting with 0xEF
    ReturnEf(u64),
    /// REVERT with n bytes
    RevertN(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Body {
    pub ops: Vec<Op>,
    pub end: End,
}
impl Body {
    pub fn new(ops: Vec<Op>, end: End) -> Self {
        Self { ops, end }
    }
}

/// Enumeration alphabet: leaves (size 1), wrappers around a nested body (1 + size of the body).
#[derive(Clone, Debug, Default)]
pub struct Alphabet {
    pub leaves: Vec<Op>,
    /// template calls; the body is filled in
    pub calls: Vec<Op>,
    /// template creates; the init body is filled in
    pub creates: Vec<Op>,
    pub call_ends: Vec<End>,
    pub init_ends: Vec<End>,
    pub top_ends: Vec<End>,
    pub max_depth: usize,
}

impl Alphabet {
    fn variants(&self) -> u64 {
        (self.calls.len() * self.call_ends.len() + self.creates.len() * self.init_ends.len()) as u64
    }
    /// number of single ops with exactly n nodes, nesting at most d
    fn op_count(&self, n: usize, d: usize) -> u64 {
        let mut c = 0;
        if n == 1 {
            c += self.leaves.len() as u64;
        }
        if d > 0 && n >= 1 {
            c += self.variants() * self.seq_count(n - 1, d - 1);
        }
        c
    }
    /// number of op sequences with exactly n nodes
    pub fn seq_count(&self, n: usize, d: usize) -> u64 {
        if n == 0 {
            return 1;
        }
        (1..=n).map(|k| self.op_count(k, d) * self.seq_count(n - k, d)).sum()
    }
    fn op_at(&self, n: usize, d: usize, mut i: u64) -> Op {
        if n == 1 {
            if i < self.leaves.len() as u64 {
                return self.leaves[i as usize].clone();
            }
            i -= self.leaves.len() as u64;
        }
        let per = self.seq_count(n - 1, d - 1);
        let v = i / per;
        let ops = self.seq_at(n - 1, d - 1, i % per);
        let nc = (self.calls.len() * self.call_ends.len()) as u64;
        if v < nc {
            let mut t = self.calls[(v as usize) / self.call_ends.len()].clone();
            let end = self.call_ends[(v as usize) % self.call_ends.len()];
            if let Op::Call { body, .. } = &mut t {
                *body = Some(Body { ops, end });
            }
            t
        } else {
            let v = (v - nc) as usize;
            let mut t = self.creates[v / self.init_ends.len()].clone();
            let end = self.init_ends[v % self.init_ends.len()];
            if let Op::Create { init, .. } = &mut t {
                *init = Body { ops, end };
            }
            t
        }
    }
    pub fn seq_at(&self, n: usize, d: usize, mut i: u64) -> Vec<Op> {
        if n == 0 {
            return vec![];
        }
        for k in 1..=n {
            let (a, b) = (self.op_count(k, d), self.seq_count(n - k, d));
            if i < a * b {
                let mut v = vec![self.op_at(k, d, i / b)];
                v.extend(self.seq_at(n - k, d, i % b));
                return v;
            }
            i -= a * b;
        }
        unreachable!("rank out of range")
    }
    /// all programs with at most n nodes
    pub fn total(&self, n: usize) -> u64 {
        (0..=n).map(|k| self.seq_count(k, self.max_depth) * self.top_ends.len() as u64).sum()
    }
    pub fn at(&self, n: usize, mut i: u64) -> Body {
        for k in 0..=n {
            let c = self.seq_count(k, self.max_depth) * self.top_ends.len() as u64;
            if i < c {
                let e = self.top_ends.len() as u64;
                return Body {
                    ops: self.seq_at(k, self.max_depth, i / e),
                    end: self.top_ends[(i % e) as usize],
                };
            }
            i -= c;
        }
        unreachable!("rank out of range")
    }
}

// ------------------------------------------------------------------ assembler

#[derive(Default, Clone)]
pub struct Asm {
    pub code: Vec<u8>,
}
impl Asm {
    pub fn op(mut self, b: u8) -> Self {
        self.code.push(b);
        self
    }
    pub fn ops(mut self, b: &[u8]) -> Self {
        self.code.extend_from_slice(b);
        self
    }
    pub fn push(mut self, v: u64) -> Self {
        if v == 0 {
            self.code.push(0x5f);
            return self;
        }
        let b = v.to_be_bytes();
        let s = b.iter().position(|x| *x != 0).unwrap();
        self.code.push(0x5f + (8 - s) as u8);
        self.code.extend_from_slice(&b[s..]);
        self
    }
    pub fn push_addr(mut self, a: Address) -> Self {
        self.code.push(0x73);
        self.code.extend_from_slice(a.as_slice());
        self
    }
    pub fn push32(mut self, v: &[u8; 32]) -> Self {
        self.code.push(0x7f);
        self.code.extend_from_slice(v);
        self
    }
    pub fn push_u256(self, v: U256) -> Self {
        self.push32(&v.to_be_bytes::<32>())
    }
    /// copies `data` to memory at `off`
    pub fn mem(mut self, off: u64, data: &[u8]) -> Self {
        for (i, c) in data.chunks(32).enumerate() {
            let mut w = [0u8; 32];
            w[..c.len()].copy_from_slice(c);
            self = self.push32(&w).push(off + 32 * i as u64).op(0x52);
        }
        self
    }
    pub fn sstore(self, k: u64, v: u64) -> Self {
        self.push(v).push(k).op(0x55)
    }
    pub fn build(self) -> Vec<u8> {
        self.code
    }
}

/// Bodies reachable from one top-level program, laid out behind a dispatcher.
pub struct Image {
    bodies: Vec<Body>,
    /// SELFDESTRUCT is compiled as INVALID
    pub sd_invalid: bool,
}

impl Image {
    fn index(&mut self, b: &Body) -> u64 {
        if let Some(i) = self.bodies.iter().position(|x| x == b) {
            return i as u64;
        }
        self.bodies.push(b.clone());
        (self.bodies.len() - 1) as u64
    }
    fn emit(&mut self, mut a: Asm, body: &Body, create_ix: &mut u64) -> Asm {
        for op in &body.ops {
            a = self.emit_op(a, op, create_ix);
        }
        match body.end {
            End::Stop => a.op(0x00),
            End::Revert => a.push(0).push(0).op(0xfd),
            End::Invalid => a.op(0xfe),
            End::Return(n) => a.push(n).push(0x1000).op(0xf3),
            End::ReturnEf(n) => a.push(0xef).push(0x1000).op(0x53).push(n).push(0x1000).op(0xf3),
            End::RevertN(n) => a.push(n).push(0x1000).op(0xfd),
        }
    }
    fn emit_op(&mut self, a: Asm, op: &Op, create_ix: &mut u64) -> Asm {
        match op {
            Op::Sstore(k, v) => a.sstore(*k, *v),
            Op::Sload(k) => a.push(*k).op(0x54).op(0x50),
            Op::Tstore(k, v) => a.push(*v).push(*k).op(0x5d),
            Op::Log(n, len) => {
                let mut a = a;
                for i in 0..*n {
                    a = a.push(0xe0 + i as u64);
                }
                a.push(*len).push(0x20).op(0xa0 + n)
            }
            Op::Raw(_, c) => a.ops(c),
            Op::SelfDestruct(t) => {
                if self.sd_invalid {
                    a.op(0xfe)
                } else {
                    a.push_addr(*t).op(0xff)
                }
            }
            Op::Call { kind, to, value, gas, body } => {
                let mut a = a;
                let args = match body {
                    Some(b) => {
                        let i = self.index(b);
                        a = a.push(i).push(0).op(0x53);
                        1
                    }
                    None => 0,
                };
                a = a.push(0).push(0).push(args).push(0);
                if matches!(kind, CK::Call | CK::CallCode) {
                    a = a.push(*value);
                }
                a = a.push_addr(*to).push(match gas {
                    G::All => u64::MAX,
                    G::Lim(g) => *g,
                });
                a.op(match kind {
                    CK::Call => 0xf1,
                    CK::CallCode => 0xf2,
                    CK::Delegate => 0xf4,
                    CK::Static => 0xfa,
                })
                .op(0x50)
            }
            Op::Create { two, value, init } => {
                let code = self.emit(Asm::default(), init, create_ix).code;
                let mut a = a.mem(0x40, &code);
                if *two {
                    *create_ix += 1;
                    a = a.push(*create_ix);
                }
                a.push(code.len() as u64)
                    .push(0x40)
                    .push(*value)
                    .op(if *two { 0xf5 } else { 0xf0 })
                    .op(0x50)
            }
        }
    }
    /// Compiles `top` (body 0) and everything it calls into one dispatching contract.
    pub fn compile(top: &Body, sd_invalid: bool) -> Vec<u8> {
        Self::compile_all(vec![top.clone()], sd_invalid)
    }
    /// Compiles several entry bodies, selected by the first byte of the calldata.
    pub fn compile_all(bodies: Vec<Body>, sd_invalid: bool) -> Vec<u8> {
        let mut im = Image { bodies, sd_invalid };
        let mut out: Vec<Vec<u8>> = vec![];
        let mut i = 0;
        let mut cix = 0;
        while i < im.bodies.len() {
            let b = im.bodies[i].clone();
            out.push(im.emit(Asm::default(), &b, &mut cix).code);
            i += 1;
        }
        // dispatcher: byte 0 of the calldata selects the body
        // PUSH0 CALLDATALOAD PUSH0 BYTE, then per body: DUP1 PUSH1 i EQ PUSH2 dest JUMPI
        let n = out.len();
        let head = 4 + n * 8 + 1;
        let mut dest = vec![];
        let mut pos = head;
        for c in &out {
            dest.push(pos);
            pos += 2 + c.len();
        }
        let mut code = vec![0x5f, 0x35, 0x5f, 0x1a];
        for (i, d) in dest.iter().enumerate() {
            code.extend_from_slice(&[0x80, 0x60, i as u8, 0x14, 0x61]);
            code.extend_from_slice(&(*d as u16).to_be_bytes());
            code.push(0x57);
        }
        code.push(0xfe);
        debug_assert_eq!(code.len(), head);
        for c in out {
            code.push(0x5b);
            code.push(0x50);
            code.extend_from_slice(&c);
        }
        assert!(code.len() < 65536);
        code
    }
    /// Compiles `top` as an initcode.
    pub fn compile_init(top: &Body, sd_invalid: bool) -> Vec<u8> {
        let mut im = Image { bodies: vec![], sd_invalid };
        let mut cix = 0;
        let c = im.emit(Asm::default(), top, &mut cix).code;
        assert!(im.bodies.is_empty(), "initcode with calls to bodies needs an image");
        c
    }
}

/// The base world with program `top` installed at A, B and C (same dispatcher).
pub fn prog_world(top: &Body, sd_invalid: bool) -> World {
    world_with_code(Image::compile(top, sd_invalid))
}
pub fn prog_world_bodies(bodies: &[Body]) -> World {
    world_with_code(Image::compile_all(bodies.to_vec(), false))
}
pub fn world_with_code(code: Vec<u8>) -> World {
    let mut w = base_world();
    for a in [A, B, C] {
        let e = w.set(a, 1000 * ETHER, 1, &code);
        // slot 5 exists from the start
        e.storage.insert(U256::from(5), U256::from(55));
    }
    // EIP-7702 delegations: to a contract, to a missing account, and a cycle
    w.set(DELEG, 50 * ETHER, 3, &delegation(B)).storage.insert(U256::from(5), U256::from(66));
    w.set(DELEG_NONE, 0, 3, &delegation(NONE2));
    w.set(EMPTY, 0, 0, &[]);
    w.set(CODE_ONLY, 0, 0, &[0x5b, 0x00]);
    w.set(CYC1, 1, 3, &delegation(CYC2));
    w.set(CYC2, 1, 3, &delegation(CYC1));
    w
}

pub fn delegation(to: Address) -> Vec<u8> {
    let mut v = vec![0xef, 0x01, 0x00];
    v.extend_from_slice(to.as_slice());
    v
}
