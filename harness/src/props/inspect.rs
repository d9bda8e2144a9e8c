//! Inspectors (C14).
use super::{exec::*, hist, limits::*};
use crate::{common::*, ensure, ensure_eq, prog::*, reft::*, runner::*};
use alloy_evm::Evm;
use alloy_primitives::{Address, Bytes, Log, U256};
use mega_evm::{MegaEvm, MegaSpecId, MegaTransaction};
use op_revm::{DefaultOp, OpBuilder, OpContext, OpSpecId};
use revm::{
    context::CfgEnv,
    inspector::NoOpInspector,
    interpreter::{
        interpreter::EthInterpreter,
        interpreter_types::{InputsTr, Jumps, LoopControl},
        CallInputs, CallOutcome, CreateInputs, CreateOutcome, Gas, InstructionResult, Interpreter,
        InterpreterResult,
    },
    InspectEvm, Inspector,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seen {
    Call { from: Address, to: Address, code: Address, value: U256, is_static: bool, scheme: String, input: usize },
    Create { from: Address, value: U256, init: usize, scheme: String },
    CallEnd { ok: bool, revert: bool, out: Bytes },
    CreateEnd { ok: bool, revert: bool, addr: Option<Address> },
    Init,
    Step { pc: usize, op: u8, at: Address },
    StepEnd,
    Log(Log),
    SelfDestruct(Address, Address, U256),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Answer {
    Success,
    SuccessNoGas,
    Revert,
    Halt,
}
const ANSWERS: [Answer; 4] = [Answer::Success, Answer::SuccessNoGas, Answer::Revert, Answer::Halt];

/// Records everything; optionally answers the n-th frame itself.
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub seen: Vec<Seen>,
    pub intercept: Option<(usize, Answer)>,
    frames: usize,
}
impl Rec {
    fn answer(&mut self, gas: u64) -> Option<InterpreterResult> {
        let n = self.frames;
        self.frames += 1;
        let (k, a) = self.intercept?;
        if n != k {
            return None;
        }
        let mut g = Gas::new(gas);
        if matches!(a, Answer::SuccessNoGas | Answer::Halt) {
            g.spend_all();
        }
        Some(InterpreterResult::new(
            match a {
                Answer::Success | Answer::SuccessNoGas => InstructionResult::Return,
                Answer::Revert => InstructionResult::Revert,
                Answer::Halt => InstructionResult::OutOfGas,
            },
            Bytes::from_static(&[9, 9]),
            g,
        ))
    }
}
impl<CTX> Inspector<CTX, EthInterpreter> for Rec {
    fn initialize_interp(&mut self, _: &mut Interpreter<EthInterpreter>, _: &mut CTX) {
        self.seen.push(Seen::Init);
    }
    fn step(&mut self, i: &mut Interpreter<EthInterpreter>, _: &mut CTX) {
        debug_assert!(i.bytecode.is_not_end());
        self.seen.push(Seen::Step { pc: i.bytecode.pc(), op: i.bytecode.opcode(), at: i.input.target_address() });
    }
    fn step_end(&mut self, _: &mut Interpreter<EthInterpreter>, _: &mut CTX) {
        self.seen.push(Seen::StepEnd);
    }
    fn log(&mut self, _: &mut Interpreter<EthInterpreter>, _: &mut CTX, l: Log) {
        self.seen.push(Seen::Log(l));
    }
    fn call(&mut self, _: &mut CTX, c: &mut CallInputs) -> Option<CallOutcome> {
        self.seen.push(Seen::Call {
            from: c.caller,
            to: c.target_address,
            code: c.bytecode_address,
            value: c.value.get(),
            is_static: c.is_static,
            scheme: format!("{:?}", c.scheme),
            input: c.input.len(),
        });
        self.answer(c.gas_limit).map(|r| CallOutcome::new(r, c.return_memory_offset.clone()))
    }
    fn call_end(&mut self, _: &mut CTX, _: &CallInputs, o: &mut CallOutcome) {
        self.seen.push(Seen::CallEnd {
            ok: o.result.result.is_ok(),
            revert: o.result.result.is_revert(),
            out: o.result.output.clone(),
        });
    }
    fn create(&mut self, _: &mut CTX, c: &mut CreateInputs) -> Option<CreateOutcome> {
        self.seen.push(Seen::Create {
            from: c.caller,
            value: c.value,
            init: c.init_code.len(),
            scheme: format!("{:?}", c.scheme),
        });
        self.answer(c.gas_limit).map(|r| CreateOutcome::new(r, None))
    }
    fn create_end(&mut self, _: &mut CTX, _: &CreateInputs, o: &mut CreateOutcome) {
        self.seen.push(Seen::CreateEnd {
            ok: o.result.result.is_ok(),
            revert: o.result.result.is_revert(),
            addr: o.address,
        });
    }
    fn selfdestruct(&mut self, a: Address, b: Address, v: U256) {
        self.seen.push(Seen::SelfDestruct(a, b, v));
    }
}

/// Begin and end events pair up like brackets.
fn well_formed(seen: &[Seen], intercept: Option<usize>) -> Result<(usize, usize), Bad> {
    // (is call, initialised)
    let mut st: Vec<(bool, bool)> = vec![];
    let (mut pending, mut frames, mut steps) = (false, 0usize, 0usize);
    for (i, e) in seen.iter().enumerate() {
        match e {
            Seen::Call { .. } | Seen::Create { .. } => {
                ensure!(!pending, "frame starts inside an unfinished step, event {i}");
                ensure!(!st.is_empty() || frames == 0, "second top-level frame, event {i}");
                ensure!(st.last().is_none_or(|f| f.1), "frame starts in a frame that does not run, event {i}");
                st.push((matches!(e, Seen::Call { .. }), false));
                frames += 1;
            }
            Seen::CallEnd { .. } | Seen::CreateEnd { .. } => {
                ensure!(!pending, "frame ends inside an unfinished step, event {i}");
                let f = st.pop();
                ensure_eq!(f.map(|f| f.0), Some(matches!(e, Seen::CallEnd { .. })), "kind of the ending frame, event {i}");
            }
            Seen::Init => {
                let f = st.last_mut();
                ensure!(f.as_ref().is_some_and(|f| !f.1), "interpreter initialised out of place, event {i}");
                ensure!(intercept.is_none_or(|k| k + 1 != frames), "intercepted frame runs, event {i}");
                f.unwrap().1 = true;
            }
            Seen::Step { .. } => {
                ensure!(!pending && st.last().is_some_and(|f| f.1), "step out of place, event {i}");
                pending = true;
                steps += 1;
            }
            Seen::StepEnd => {
                ensure!(pending, "step end without a step, event {i}");
                pending = false;
            }
            Seen::Log(_) => ensure!(pending, "log outside a step, event {i}"),
            Seen::SelfDestruct(..) => {}
        }
    }
    ensure!(st.is_empty() && !pending, "unfinished frames or steps at the end");
    Ok((frames, steps))
}

#[derive(Debug, PartialEq, Eq, Clone)]
struct Out {
    res: Result<Obs, String>,
    post: World,
    usage: (u64, u64, u64, u64),
    access: u16,
    buckets: Vec<u32>,
}
fn run_with<I>(mut evm: MegaEvm<McDb, I, McEnvs>, w: &World, tx: &MegaTransaction) -> (Out, I)
where
    I: Inspector<mega_evm::MegaContext<McDb, McEnvs>> + Clone,
{
    let r = evm.execute_transaction(tx.clone());
    let mut buckets = evm.get_accessed_bucket_ids();
    buckets.sort();
    let access = evm.ctx.volatile_data_tracker.borrow().get_volatile_data_accessed().bits();
    let o = match r {
        Ok(m) => Out {
            res: Ok(obs(&m.result)),
            post: post_world(w, &m.state),
            usage: (m.compute_gas_used, m.data_size, m.kv_updates, m.state_growth_used),
            access,
            buckets,
        },
        Err(e) => Out { res: Err(format!("{e:?}")), post: w.clone(), usage: (0, 0, 0, 0), access, buckets },
    };
    let insp = evm.inspector.clone();
    (o, insp)
}

/// Plain, no-op-inspected and recorded executions agree; the record is well-formed.
fn passive(w: &World, s: &Setup, tx: &MegaTransaction) -> Result<(u64, Out, Rec), Bad> {
    let db = McDb::new(w);
    let mk = || MegaEvm::new(mega_ctx(db.clone(), s));
    let (plain, _) = run_with(mk(), w, tx);
    let (noop, _) = run_with(mk().with_inspector(NoOpInspector), w, tx);
    ensure_eq!(noop, plain, "no-op inspector vs none");
    let (rec, r) = run_with(mk().with_inspector(Rec::default()), w, tx);
    ensure_eq!(rec, plain, "recording inspector vs none");
    let (frames, _) = well_formed(&r.seen, None)?;
    if rec.res.is_err() {
        ensure_eq!(frames, 0, "frames of a rejected transaction");
    }
    // an inspector that is attached and switched off sees nothing
    let mut off = mk().with_inspector(Rec::default());
    off.set_inspector_enabled(false);
    let (o, r2) = run_with(off, w, tx);
    ensure_eq!(o, plain, "disabled inspector vs none");
    ensure!(r2.seen.is_empty(), "a disabled inspector was called");
    Ok((4, plain, r))
}

/// op-revm with the same recorder.
fn op_rec(w: &World, s: &Setup, tx: &MegaTransaction, rec: Rec) -> Option<(Obs, World, Rec)> {
    let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
    cfg.chain_id = s.chain_id;
    cfg.limit_contract_code_size = Some(512 * 1024);
    cfg.limit_contract_initcode_size = Some(536 * 1024);
    let ctx: OpContext<McDb> = revm::Context::op()
        .with_db(McDb::new(w))
        .with_cfg(cfg)
        .with_block(s.block.clone())
        .with_chain(s.l1.clone());
    let mut evm = ctx.build_op_with_inspector(rec);
    let r = evm.inspect_tx(tx.clone()).ok()?;
    Some((obs(&r.result), post_world(w, &r.state), evm.0.inspector.clone()))
}

fn trace_alphabet() -> Alphabet {
    let mut al = general(false);
    let all = |o: &Op| !matches!(o, Op::Call { gas: G::Lim(_), .. });
    al.leaves.retain(all);
    al.calls.retain(all);
    al
}

pub fn c14(run: &Run) {
    // passive inspectors, nothing limited
    let al = trace_alphabet();
    let n = run.pick(2, 3);
    let specs: &[MegaSpecId] = run.pick(&REX_SPECS, &[MegaSpecId::MINI_REX, MegaSpecId::REX4]);
    let k = specs.len() as u64;
    run.space(
        "programs",
        &format!("all program trees with <= {n} nodes x {k} specs: plain, no-op, recording and disabled inspectors; the record equals op-revm's"),
        al.total(n) * k,
        |i| format!("{:?} {:?}", al.at(n, i / k), specs[(i % k) as usize]),
        |i| {
            let p = al.at(n, i / k);
            let w = prog_world(&p, false);
            let s = Setup::new(specs[(i % k) as usize]).unlimited().salt(512);
            let tx = tx_call(CALLER, A, vec![], 0);
            let (n, o, rec) = passive(&w, &s, &tx)?;
            if let Some((_, _, r)) = op_rec(&w, &s, &tx, Rec::default()) {
                ensure_eq!(rec.seen, r.seen, "record");
            }
            Ok(Case { state: hash_dbg(&(o.usage, rec.seen.len())), transitions: rec.seen.len() as u64, traces: n })
        },
    );
    // EQUIVALENCE
    run.space(
        "equivalence programs",
        "all program trees with <= 2 nodes under EQUIVALENCE",
        al.total(2),
        |i| format!("{:?}", al.at(2, i)),
        |i| {
            let w = prog_world(&al.at(2, i), false);
            let s = Setup::new(MegaSpecId::EQUIVALENCE);
            let tx = tx_call(CALLER, A, vec![], 0);
            let (n, o, rec) = passive(&w, &s, &tx)?;
            if let Some((_, _, r)) = op_rec(&w, &s, &tx, Rec::default()) {
                ensure_eq!(rec.seen, r.seen, "record");
            }
            Ok(Case { state: hash_dbg(&(o.res, rec.seen.len())), transitions: rec.seen.len() as u64, traces: n })
        },
    );
    // at every limit
    let al = limit_alphabet();
    let n = 2;
    let specs: &[MegaSpecId] = &REX_SPECS;
    let k = specs.len() as u64;
    run.space(
        "programs x limits",
        &format!("all program trees with <= {n} nodes x every limit value of every dimension that separates two events x {k} specs"),
        al.total(n) * k,
        |i| format!("{:?} {:?}", al.at(n, i / k), specs[(i % k) as usize]),
        |i| {
            let p = al.at(n, i / k);
            let w = prog_world(&p, false);
            let mut s = Setup::new(specs[(i % k) as usize]).unlimited();
            let tx = tx_call(CALLER, A, vec![], 0);
            let r = ref_run(&McDb::new(&w), &s, &tx, IMPL);
            let mut c = Case::default();
            let dims: [(fn(&Ev) -> i128, fn(&mut mega_evm::EvmTxRuntimeLimits) -> &mut u64); 4] = [
                (|e| e.data as i128, |l| &mut l.tx_data_size_limit),
                (|e| e.kv as i128, |l| &mut l.tx_kv_updates_limit),
                (|e| e.compute as i128, |l| &mut l.tx_compute_gas_limit),
                (|e| e.growth as i128, |l| &mut l.tx_state_growth_limit),
            ];
            for (f, fld) in dims {
                for th in thresholds(&r.t, f) {
                    let mut l = no_limits();
                    *fld(&mut l) = th;
                    s.limits = Some(l);
                    let (n, o, rec) = passive(&w, &s, &tx).map_err(|b| Bad { what: format!("{l:?}: {}", b.what) })?;
                    c.traces += n;
                    c.transitions += rec.seen.len() as u64;
                    c.state = c.state.wrapping_mul(31) ^ hash_dbg(&(o.res, o.usage));
                }
            }
            Ok(c)
        },
    );
    // transaction shapes and gas limits
    let shapes = tx_shapes();
    let k = ALL_SPECS.len() as u64;
    run.space(
        "transaction shapes x gas limits",
        "every transaction shape x gas limits around every accounting event, all specs",
        shapes.len() as u64 * k,
        |i| format!("{} {:?}", shapes[(i / k) as usize].desc, ALL_SPECS[(i % k) as usize]),
        |i| {
            let sh = &shapes[(i / k) as usize];
            let s = Setup::new(ALL_SPECS[(i % k) as usize]).salt(512);
            let r = ref_run(&McDb::new(&sh.world), &s, &sh.tx, IMPL);
            let mut ths = gas_thresholds(&r.t, sh.tx.base.gas_limit - r.t.final_gas);
            ths.push(sh.tx.base.gas_limit);
            let mut c = Case::default();
            for g in ths {
                let (n, o, rec) = passive(&sh.world, &s, &with_gas(unmark(&sh.tx), g))?;
                c.traces += n;
                c.transitions += rec.seen.len() as u64;
                c.state = c.state.wrapping_mul(31) ^ hash_dbg(&(o.res, o.usage));
            }
            Ok(c)
        },
    );
    let ex = extremes(run.thorough());
    run.space(
        "extremes",
        "deep chains, long repetitions and large numbers, without limits and stopped half-way by the compute gas limit, REX4",
        ex.len() as u64,
        |i| ex[i as usize].desc.clone(),
        |i| {
            let x = &ex[i as usize];
            let mut s = Setup::new(MegaSpecId::REX4).unlimited().salt(x.cap.unwrap_or(512));
            let (n, o, rec) = passive(&x.world, &s, &x.tx)?;
            let mut l = no_limits();
            l.tx_compute_gas_limit = o.usage.0 / 2;
            s.limits = Some(l);
            let (m, o2, rec2) = passive(&x.world, &s, &x.tx)?;
            Ok(Case { state: hash_dbg(&(o.res, o2.res)), transitions: (rec.seen.len() + rec2.seen.len()) as u64, traces: n + m })
        },
    );
    // everything else a transaction may be: limits hit, volatile reads, system and keyless calls
    let kinds = hist::tx_kinds();
    run.space(
        "kinds of transactions",
        "every kind of transaction of the history alphabet (volatile reads, oracle, system, keyless, deposits, rejected) x all specs",
        kinds.len() as u64 * k,
        |i| format!("{} {:?}", kinds[(i / k) as usize].0, ALL_SPECS[(i % k) as usize]),
        |i| {
            let mut s = Setup::new(ALL_SPECS[(i % k) as usize]).salt(512);
            let w = hist::hist_world();
            let tx = &kinds[(i / k) as usize].1;
            let mut c = Case::default();
            for l in [hist::hist_limits(), no_limits()] {
                s.limits = Some(l);
                let (n, o, rec) = passive(&w, &s, tx)?;
                c.traces += n;
                c.transitions += rec.seen.len() as u64;
                c.state = c.state.wrapping_mul(31) ^ hash_dbg(&(o.res, o.usage));
            }
            Ok(c)
        },
    );
    intercepts(run);
}

// ------------------------------------------------------------------ interception

fn cut_alphabet() -> Alphabet {
    let call = |kind, to, value| Op::Call { kind, to, value, gas: G::All, body: None };
    Alphabet {
        leaves: vec![
            Op::Sstore(1, 7),
            Op::Sstore(5, 0),
            Op::Log(1, 3),
            call(CK::Call, NONE, 1),
            call(CK::Call, EOA, 1),
        ],
        calls: vec![call(CK::Call, B, 0), call(CK::Call, B, 1), call(CK::Delegate, B, 0)],
        creates: vec![Op::Create { two: false, value: 1, init: Body::new(vec![], End::Stop) }],
        call_ends: vec![End::Stop, End::Revert],
        init_ends: vec![End::Return(3), End::Revert],
        top_ends: vec![End::Stop],
        max_depth: 3,
    }
}
/// Removes the k-th operation that starts a frame (in execution order).
fn cut(b: &Body, k: &mut i64) -> Body {
    let mut ops = vec![];
    for op in &b.ops {
        let starts = matches!(op, Op::Call { .. } | Op::Create { .. });
        if starts {
            *k -= 1;
            if *k == 0 {
                continue;
            }
        }
        ops.push(match op {
            Op::Call { kind, to, value, gas, body: Some(x) } => {
                Op::Call { kind: *kind, to: *to, value: *value, gas: *gas, body: Some(cut(x, k)) }
            }
            Op::Create { two, value, init } => Op::Create { two: *two, value: *value, init: cut(init, k) },
            x => x.clone(),
        });
    }
    Body { ops, end: b.end }
}
/// Everything but the code of the program contracts.
fn no_code(w: &World) -> World {
    let mut w = w.clone();
    for a in [A, B, C] {
        if let Some(x) = w.accts.get_mut(&a) {
            x.code = Bytes::new();
        }
    }
    w
}

fn intercepts(run: &Run) {
    let al = cut_alphabet();
    let n = 3;
    let specs: &[MegaSpecId] = run.pick(&[MegaSpecId::MINI_REX, MegaSpecId::REX3], &REX_SPECS);
    let k = specs.len() as u64;
    run.space(
        "intercepted frames",
        &format!("all program trees with <= {n} nodes x every frame answered by the inspector x 4 answers x every limit value x {k} specs"),
        al.total(n) * k,
        |i| format!("{:?} {:?}", al.at(n, i / k), specs[(i % k) as usize]),
        |i| {
            let p = al.at(n, i / k);
            let spec = specs[(i % k) as usize];
            let w = prog_world(&p, false);
            let mut s = Setup::new(spec).unlimited();
            let tx = tx_call(CALLER, A, vec![], 0);
            let mut c = Case::default();
            let frames = {
                let evm = MegaEvm::new(mega_ctx(McDb::new(&w), &s)).with_inspector(Rec::default());
                let (_, r) = run_with(evm, &w, &tx);
                well_formed(&r.seen, None)?.0
            };
            for f in 0..frames {
                let mut computes = vec![];
                for a in ANSWERS {
                    let rec = Rec { intercept: Some((f, a)), ..Default::default() };
                    let go = |s: &Setup| {
                        let evm = MegaEvm::new(mega_ctx(McDb::new(&w), s)).with_inspector(rec.clone());
                        run_with(evm, &w, &tx)
                    };
                    let (o, seen) = go(&s);
                    well_formed(&seen.seen, Some(f))?;
                    computes.push(o.usage.0);
                    c.traces += 1;
                    c.transitions += seen.seen.len() as u64;
                    let res = o.res.clone().map_err(|e| Bad { what: e })?;
                    // the same interception on op-revm
                    if let Some((r, post, rs)) = op_rec(&w, &s, &tx, rec.clone()) {
                        ensure_eq!(seen.seen, rs.seen, "frame {f} {a:?}: record");
                        ensure_eq!((&res.res, &res.logs), (&r.res, &r.logs), "frame {f} {a:?}: result");
                        ensure_eq!(o.post, post, "frame {f} {a:?}: post state");
                    }
                    // the limits count the program without that call
                    if f == 0 {
                        let (d, kv) = initial_resources(&tx);
                        ensure_eq!((o.usage.1, o.usage.2, o.usage.3), (d as u64, kv as u64, 0), "usage with the top frame answered ({a:?})");
                        continue;
                    }
                    let p2 = cut(&p, &mut (f as i64));
                    let w2 = prog_world(&p2, false);
                    let without = |s: &Setup| run_with(MegaEvm::new(mega_ctx(McDb::new(&w2), s)), &w2, &tx).0;
                    let o2 = without(&s);
                    let u = |o: &Out| (o.usage.1, o.usage.2, o.usage.3);
                    ensure_eq!(u(&o), u(&o2), "frame {f} {a:?}: data, kv, growth vs the program without the call");
                    ensure_eq!(no_code(&o.post), no_code(&o2.post), "frame {f} {a:?}: state vs the program without the call");
                    if a != Answer::Success && a != Answer::Halt {
                        continue;
                    }
                    let t = ref_run(&McDb::new(&w2), &s, &tx, IMPL).t;
                    let dims: [(fn(&Ev) -> i128, fn(&mut mega_evm::EvmTxRuntimeLimits) -> &mut u64); 3] = [
                        (|e| e.data as i128, |l| &mut l.tx_data_size_limit),
                        (|e| e.kv as i128, |l| &mut l.tx_kv_updates_limit),
                        (|e| e.growth as i128, |l| &mut l.tx_state_growth_limit),
                    ];
                    for (get, fld) in dims {
                        for th in thresholds(&t, get) {
                            let mut l = no_limits();
                            *fld(&mut l) = th;
                            s.limits = Some(l);
                            let (x, seen) = go(&s);
                            let y = without(&s);
                            s.limits = Some(no_limits());
                            c.traces += 2;
                            well_formed(&seen.seen, Some(f))?;
                            let r = |o: &Out| o.res.clone().map(|o| (o.res, o.logs));
                            ensure_eq!(r(&x), r(&y), "frame {f} {a:?} limit {th}: result");
                            ensure_eq!(u(&x), u(&y), "frame {f} {a:?} limit {th}: usage");
                            ensure_eq!(no_code(&x.post), no_code(&y.post), "frame {f} {a:?} limit {th}: state");
                        }
                    }
                    c.state = c.state.wrapping_mul(31) ^ hash_dbg(&(res.res, o.usage));
                }
                ensure!(
                    computes.iter().all(|x| *x == computes[0]),
                    "frame {f}: the gas of the inspector's answer enters the compute gas: {computes:?}"
                );
            }
            Ok(c)
        },
    );
}
