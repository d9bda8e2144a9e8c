#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (development helper)."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "crates/mega-evm/src/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note="", technique=None, claimed=True, reason=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=list(state), observe=list(observe), note=note, technique=technique,
                  claimed=claimed, reason=reason))

OUT = ["transaction outcome (result, gas used, logs, state, usage counters)"]

prop("C01", "EQUIVALENCE executes exactly like an Optimism Isthmus EVM",
 "Under the EQUIVALENCE spec, any transaction on any state gives exactly what an Optimism Isthmus EVM gives: the same acceptance or rejection, result, output, logs, gas used, fees and post state. None of MegaETH's own pricing, limits, code-size limits, volatile-data rules or system contracts takes effect there.",
 ["inputs", "programs", "configurations"], "every program, transaction shape, gas limit, fee setting and invalid transaction",
 "Tests sample a few EQUIVALENCE transactions; they never compare whole outcomes with op-revm over an enumerated program space.",
 [S+"evm/execution.rs", S+"evm/instructions.rs", S+"evm/host.rs", S+"evm/mod.rs", S+"evm/precompiles.rs"],
 [("spec gates around every MegaETH rule", S+"evm/execution.rs"), ("instruction table per spec", S+"evm/instructions.rs")], observe=OUT,
 note="Differential enumeration: every program/transaction in the bound runs on the compiled crate and on plain op-revm (Isthmus); trusts op-revm.")
prop("C02", "Compute gas is the standard EVM gas of everything executed",
 "From MINI_REX on, the compute gas reported for a transaction that no limit stops is the gas a standard Isthmus EVM charges for its intrinsic cost, every instruction executed in any frame (reverted frames included), precompiles and code deposits. Storage gas, gas merely forwarded to callees, and refunds are no part of it.",
 ["inputs", "programs"], "all program trees, opcodes and transaction shapes within the bound, every spec and bucket capacity listed",
 "Tests assert compute gas for hand-picked programs; double counting or a missed charge in one opcode or call kind shows only on particular combinations of nesting, call kind, revert and value.",
 [S+"limit/compute_gas.rs", S+"limit/mod.rs", S+"evm/instructions.rs", S+"evm/execution.rs"],
 [("every instruction wrapped to record the gas it spent", S+"evm/instructions.rs compute_gas_ext"), ("forwarded gas subtracted for calls and creates", S+"evm/instructions.rs")],
 [("compute gas used", "running total of compute gas of the transaction", S+"limit/compute_gas.rs")], OUT,
 note="Reference model: op-revm plus an inspector computing the documented numbers; enumerated programs are executed on the crate and compared.")
prop("C03", "The compute gas limit stops a transaction exactly when crossed",
 "A transaction whose compute gas exceeds its compute gas limit halts at the first charge that crosses the limit, at whatever call depth; the halt reports the limit and the actual usage, all effects of execution are undone, and unspent gas is returned. A transaction that stays at or below the limit is not affected by it in any way.",
 ["inputs", "programs", "configurations"], "every program x every limit value that separates two consecutive charges",
 "Tests use a few limit values; whether a limit is enforced at every charge point (instruction, frame entry, precompile, code deposit) and every depth needs all of them.",
 [S+"limit/mod.rs", S+"limit/compute_gas.rs", S+"evm/execution.rs", S+"evm/instructions.rs"],
 [("exceeding check after each instruction and frame", S+"limit/mod.rs"), ("rescued gas given back", S+"evm/execution.rs last_frame_result")], observe=OUT,
 note="All threshold values between consecutive accounting events are swept for every enumerated program; the reference predicts the event, reason, gas and state.")
prop("C04", "Generated data size is counted as documented and undone on revert",
 "From MINI_REX on, the reported data size of a transaction is the documented sum: 110 bytes base, calldata, access list, authorisations, the sender's account, and, for frames that succeed, log topics and data, 40 bytes per changed storage slot, 40 per account touched by value transfer or creation, and deployed code. Writing a slot back to its original value and reverting a frame give back what they counted; equal transactions always count equal.",
 ["inputs", "programs"], "all program trees, transaction shapes and gas limits within the bound",
 "The counter is updated by hooks in many places and discarded per frame; tests cover single hooks, not their combinations with reverts, nesting and repeated writes.",
 [S+"limit/data_size.rs", S+"limit/mod.rs", S+"evm/instructions.rs"],
 [("per-frame usage stack merged or discarded at frame end", S+"limit/data_size.rs")],
 [("data size", "running bytes generated, per frame", S+"limit/data_size.rs")], OUT,
 note="Reference inspector on op-revm; enumerated programs and transactions executed on the crate.")
prop("C05", "KV updates are counted as documented and undone on revert",
 "From MINI_REX on, the reported number of key-value updates is one for the sender, one per valid authorisation and, for frames that succeed, one per changed storage slot and one per account updated by a value transfer or creation. Writing a slot back to its original value and reverting a frame give back what they counted.",
 ["inputs", "programs"], "all program trees, transaction shapes and gas limits within the bound",
 "As for the data size: hooks in many places, per-frame discards; tests sample single hooks.",
 [S+"limit/kv_update.rs", S+"limit/mod.rs", S+"evm/instructions.rs"],
 [("per-frame usage stack merged or discarded at frame end", S+"limit/kv_update.rs")],
 [("kv updates", "running number of key-value writes, per frame", S+"limit/kv_update.rs")], OUT,
 note="Reference inspector on op-revm; enumerated programs and transactions executed on the crate.")
prop("C06", "State growth counts exactly the net new accounts and slots",
 "The reported state growth of a transaction is the number of storage slots that went from zero to non-zero plus accounts created by value transfer or contract creation, counting only frames that succeed, minus new slots set back to zero in the same transaction. It is never negative.",
 ["inputs", "programs"], "all program trees, transaction shapes and gas limits within the bound",
 "Needs every combination of write, clear, re-write, nested revert and creation; tests sample a few.",
 [S+"limit/state_growth.rs", S+"limit/mod.rs", S+"evm/instructions.rs"],
 [("per-frame growth merged or discarded at frame end", S+"limit/state_growth.rs")],
 [("state growth", "signed net growth, per frame", S+"limit/state_growth.rs")], OUT,
 note="Reference inspector on op-revm; enumerated programs and transactions executed on the crate.")
prop("C07", "Data, KV and growth limits stop a transaction exactly when crossed",
 "A transaction whose data size, key-value updates or state growth exceeds its limit halts at the first event that crosses it, at whatever call depth, with the matching reason, limit and usage; all effects of execution are undone and unspent gas is returned. Usage at or below the limit changes nothing.",
 ["inputs", "programs", "configurations"], "every program x every limit value that separates two consecutive accounting events",
 "Tests use a few limit values and mostly top-level frames.",
 [S+"limit/mod.rs", S+"limit/data_size.rs", S+"limit/kv_update.rs", S+"limit/state_growth.rs", S+"evm/execution.rs"],
 [("check after frame init, LOG, SSTORE, code deposit", S+"limit/mod.rs")], observe=OUT,
 note="All threshold values between consecutive accounting events are swept for every enumerated program.")
prop("C08", "Gas used is standard gas plus the documented storage gas",
 "From MINI_REX on, gas used equals the standard gas plus the documented storage gas: per new slot, new account and contract creation scaled by the capacity of the bucket they fall into, per log topic and byte, per byte of deployed code and per byte of calldata (with its floor), and from REX a fixed intrinsic amount. Nothing is charged for slots or accounts that already exist.",
 ["inputs", "programs", "configurations"], "all program trees, transaction shapes and gas limits within the bound, several bucket capacities per spec",
 "Tests sample a few operations with fixed capacities; interactions of refunds, floors, nested reverts and gas limits are not enumerated.",
 [S+"external/gas.rs", S+"evm/instructions.rs", S+"evm/execution.rs", S+"constants.rs"],
 [("dynamic storage gas from the bucket capacity", S+"external/gas.rs"), ("storage gas charged before the standard instruction", S+"evm/instructions.rs")], observe=OUT,
 note="Reference simulates gas exactly (including out-of-gas points) on top of op-revm; gas limits around every charge are swept.")
prop("C09", "A sub-call gets at most 98% of the caller's remaining gas",
 "From MINI_REX on, CALL, CREATE and CREATE2 (from REX on also CALLCODE, DELEGATECALL and STATICCALL) hand their callee at most 98/100 of the gas the caller has left after the instruction's own charges, plus the 2,300 stipend of a value transfer; a smaller requested amount is honoured exactly. Gas the callee does not use comes back to the caller, at every depth.",
 ["inputs", "programs"], "all program trees that observe their own gas, over all call kinds, requested amounts and gas limits within the bound",
 "Tests look at one call kind at one depth; an error in one kind or with one requested amount goes unseen.",
 [S+"evm/instructions.rs", S+"constants.rs"],
 [("cap applied on the new frame's gas and returned to the caller", S+"evm/instructions.rs wrap_op_force_gas_limit / forward_gas_ext")], observe=["value returned by the GAS instruction in every frame"],
 note="Programs log the GAS instruction; the logged values must equal the reference's simulated gas at every read.")
prop("C10", "Reading volatile data caps the compute gas from that point on",
 "From MINI_REX on, once a transaction reads block-environment data, the beneficiary's account or oracle data, its total compute gas may not exceed the limit for that data (the lowest of those that apply, in any order of access); crossing it halts the transaction with the data accessed, the limit and the usage, and undoes its effects. Transactions that read no volatile data, and reads by the exempt system sender of the oracle, are not capped.",
 ["inputs", "programs", "configurations"], "every program over all volatile reads, sweeping both caps over every value that separates two charges, all specs",
 "Tests sample single opcodes with default caps; orders of access, nested frames, reverts after the access and both caps together are not enumerated.",
 [S+"access/tracker.rs", S+"access/volatile.rs", S+"evm/host.rs", S+"evm/instructions.rs", S+"limit/compute_gas.rs", S+"evm/execution.rs"],
 [("access marking in the host", S+"evm/host.rs"), ("detained limit applied by the instruction wrapper", S+"evm/instructions.rs"), ("oracle access by call (before REX3) or storage read (from REX3)", S+"evm/execution.rs")],
 [("accessed data and lowest cap", "what was read and the cap implied", S+"access/tracker.rs")], OUT,
 note="Enumerated programs with volatile reads x swept caps, reference on op-revm.")
prop("C11", "Oracle storage reads come from the oracle service, cold, else the state",
 "From MINI_REX on, reading a storage slot in the oracle contract's context returns the value the external oracle supplies for that slot and otherwise the value in the state, is charged as a cold read every time, and never changes the stored state. Other contracts' storage, and the EQUIVALENCE spec, never consult the oracle service.",
 ["inputs", "programs", "configurations"], "every program over reads and writes at the oracle and elsewhere, with and without supplied values",
 "Tests sample one slot in one frame kind; delegatecalls, nested frames and mixtures with writes are not covered.",
 [S+"evm/host.rs", S+"external/oracle.rs", S+"system/oracle.rs"],
 [("oracle lookup before the journal in SLOAD", S+"evm/host.rs sload")], observe=OUT + ["calls received by the oracle service"],
 note="Enumerated programs placed at the oracle address; reference overrides SLOAD on op-revm.")
prop("C12", "Every oracle hint call reaches the oracle service before it executes",
 "From REX2 on, every call to the oracle contract whose input is a well-formed hint is reported exactly once to the oracle service, in execution order and before anything the call or later code reads, with the caller, topic and data given; any other input, target or spec reports nothing. Reporting does not change the execution itself.",
 ["inputs", "programs"], "all sequences of calls of every kind and input shape, nested, within the bound",
 "Tests cover one or two direct calls; order, nesting, malformed inputs, call kinds and specs are not enumerated.",
 [S+"evm/execution.rs", S+"external/oracle.rs", S+"system/oracle.rs"],
 [("hint interception at frame start", S+"evm/execution.rs frame_init")], observe=["calls received by the oracle service"],
 note="Enumerated call sequences; the recorded service trace must equal the trace predicted from a reference execution.")
prop("C13", "A transaction's outcome does not depend on earlier transactions' limits",
 "On an EVM reused for several transactions of a block, each transaction (from REX1 on) gives the same outcome as on a fresh EVM over the state it starts from, whatever the earlier ones did: succeeded, reverted, hit a limit, read volatile data or were rejected. Before REX1 only a lowered compute gas cap may carry over.",
 ["histories", "configurations"], "all sequences of transactions up to the bound over an alphabet of succeeding, failing, limit-hitting, volatile-reading and rejected transactions",
 "Tests run one transaction per EVM, a few run two.",
 [S+"limit/mod.rs", S+"evm/context.rs", S+"access/tracker.rs", S+"evm/execution.rs"],
 [("per-transaction reset", S+"evm/context.rs on_new_tx")],
 [("usage counters, accessed volatile data, compute cap", "per-transaction tracking state", S+"limit/mod.rs, " + S+"access/tracker.rs")], OUT,
 note="Explicit enumeration of transaction sequences on one EVM, each step compared with a fresh EVM.")
prop("C14", "Attaching an inspector does not change execution",
 "Executing a transaction with a passive inspector gives exactly the outcome of executing it without one, for every spec and limit setting, and the inspector sees every frame and instruction in matching begin/end pairs. An inspector that answers a call or create itself replaces just that frame, and the limits' accounting stays consistent.",
 ["inputs", "programs", "configurations"], "all program trees, transaction shapes and limit settings within the bound",
 "The inspected path is a separate copy of the frame logic; tests compare it on a handful of programs.",
 [S+"evm/execution.rs", S+"evm/interfaces.rs", S+"evm/mod.rs"],
 [("inspect_frame_init / inspect_frame_run mirror the plain path", S+"evm/execution.rs")], observe=OUT + ["inspector callbacks"],
 note="Both paths are executed for every enumerated program and limit setting and compared.")
prop("C15", "System-sender transactions are fee-free and reach whitelisted callees only",
 "From MINI_REX on, a legacy transaction from the system address calling a whitelisted contract is processed like a deposit: it pays no L2, L1 or operator fee, leaves beneficiary and vaults alone, skips nonce and fee-balance checks, and still advances the sender's nonce. Any other transaction from that address (another callee or type, or a creation) is rejected without effect. Transactions from other senders are never treated that way, and EQUIVALENCE has no such rule.",
 ["inputs", "configurations"], "every combination of sender, callee, type, fees, value, nonce and spec in the domain",
 "Tests cover a few combinations.",
 [S+"evm/execution.rs", S+"system/tx.rs"], [("before-run processing of system transactions", S+"evm/execution.rs before_run")], observe=OUT,
 note="Full product of the finite domain, compared with op-revm executing the equivalent deposit-like or ordinary transaction.")
prop("C16", "SELFDESTRUCT is invalid from MINI_REX to REX1 and works elsewhere",
 "From MINI_REX to REX1 executing SELFDESTRUCT fails the frame like an invalid instruction and moves or destroys nothing; in EQUIVALENCE and from REX2 on it behaves as in a standard Isthmus EVM. This holds at any call depth, in init code and under static calls.",
 ["programs", "configurations"], "all program trees with self-destructs within the bound, all specs",
 "Tests cover single top-level uses.",
 [S+"evm/instructions.rs"], [("instruction table per spec", S+"evm/instructions.rs")], observe=OUT,
 note="Enumerated programs; before REX2 the reference runs the same program with the opcode replaced by INVALID.")
prop("C17", "Contract and init code sizes are limited to 512 KiB and 536 KiB",
 "From MINI_REX on, deploying code of up to 524,288 bytes from init code of up to 548,864 bytes is allowed and one byte more of either fails as the standard rules for oversized code say; EQUIVALENCE keeps the standard 24,576 and 49,152 bytes. The bounds apply equally to creation transactions and to CREATE and CREATE2 at any depth.",
 ["inputs", "configurations"], "all sizes around the bounds x creation kind x spec x configuration",
 "Tests check a few sizes with one creation kind.",
 [S+"evm/context.rs", S+"constants.rs", S+"evm/instructions.rs"], [("size limits set with the configuration", S+"evm/context.rs")], observe=OUT,
 note="Product of sizes, creation kinds, specs and configuration orders, against op-revm configured with the documented sizes.")
prop("C18", "Precompiles give standard results at the documented MegaETH prices",
 "Every precompile returns what the Isthmus precompile returns, except that from MINI_REX on modular exponentiation is priced and bounded by EIP-7883/7823 and KZG point evaluation costs 100,000 gas; EQUIVALENCE keeps the standard prices. A call with exactly the required gas succeeds and with one unit less fails, at top level and nested.",
 ["inputs", "configurations"], "every precompile address x an input grid x gas around the price x spec",
 "Tests check KZG with one input and modexp with a few.",
 [S+"evm/precompiles.rs"], [("spec-specific precompile set", S+"evm/precompiles.rs")], observe=OUT,
 note="Grid enumeration against the Isthmus precompiles and an independent EIP-7883 formula.")
prop("C19", "A rejected keyless deployment reverts with its reason and changes nothing",
 "A keyless-deployment call whose request is malformed, carries value, overrides with too little gas, has an unrecoverable or contract signer, a used nonce, an occupied target address or too little balance reverts with the error of the first failing check and changes nothing but the sender's nonce and fee. The checks depend only on the request and the current state.",
 ["inputs", "configurations"], "every combination of valid and invalid fields in the finite domain",
 "Tests cover single failures; precedence and combinations are not enumerated.",
 [S+"sandbox/execution.rs", S+"sandbox/tx.rs", S+"sandbox/error.rs"], [("validation sequence before the sandbox run", S+"sandbox/execution.rs")], observe=OUT,
 note="Product of request fields and world states against a reference decision procedure.")
prop("C20", "A keyless deployment has the effects of running its signed creation",
 "An accepted keyless deployment has on the state exactly the effects the signed creation transaction would have when run alone with the overridden gas limit, including fee and nonce of its signer, plus the outer call's own fee and nonce; logs and the deployed address are reported, and a failing creation deploys nothing but keeps the signer's fee and nonce change. Nothing the sandbox read or wrote leaks into the outer transaction besides those effects.",
 ["inputs", "programs", "configurations"], "all init programs in the bound x gas override x balances x spec",
 "Tests deploy a few fixed contracts.",
 [S+"sandbox/execution.rs", S+"sandbox/state.rs", S+"evm/state.rs", S+"system/keyless_deploy.rs"],
 [("nested context over the live journal", S+"sandbox/state.rs"), ("merge of the sandbox state", S+"evm/state.rs")], observe=OUT,
 note="Enumerated init programs; the reference is the same creation transaction executed directly on the same state.")
prop("C21", "Keyless deployment triggers only on direct top-level calls from REX2 on",
 "Only a transaction sent directly to the keyless-deployment contract with a well-formed request, from REX2 on and outside the sandbox itself, is executed as a deployment; nested calls of every kind, other targets, other inputs and earlier specs execute the contract's own code. The interception charges its fixed overhead and halts out of gas when it is not covered.",
 ["programs", "configurations"], "all call kinds, depths, input shapes, gas limits and specs in the domain",
 "Tests cover one nested call and one spec.",
 [S+"evm/execution.rs", S+"sandbox/execution.rs"], [("interception at depth 0", S+"evm/execution.rs frame_init")], observe=OUT,
 note="Product of call kinds, depth, inputs, specs and gas limits against the reference execution of the plain contract.")
prop("C22", "Block limits admit and account transactions exactly",
 "A block executor rejects a transaction before execution exactly when its gas, encoded size or data-availability size exceeds a per-transaction or remaining block allowance (deposits being exempt from data availability), or when an earlier transaction has used up the block's data, key-value, compute gas or growth allowance; a rejected transaction changes nothing. After each committed transaction the block totals grow by exactly its usage.",
 ["histories", "inputs", "configurations"], "all transaction sequences up to the bound over small allowances",
 "Tests check one limit at a time with one or two transactions.",
 [S+"block/limit.rs", S+"block/executor.rs"], [("pre-execution check and post-execution update", S+"block/limit.rs")],
 [("block usage totals", "per-block accumulated usage", S+"block/limit.rs BlockLimiter")], ["executor results", "limiter totals"],
 note="Explicit-state enumeration of sequences against a reference limiter, on the limiter and through the block executor.")
prop("C23", "Block execution equals running its transactions one after another",
 "Executing a list of transactions through the block executor gives, for every committed one, the outcome of running it alone on the state left by its predecessors, a receipt with its status, logs and the cumulative gas, and a final state equal to the sequential result; transactions that are rejected, or executed and not committed, leave no trace. The block's gas used is the sum over the committed transactions.",
 ["histories", "inputs"], "all sequences of transactions and commit decisions up to the bound",
 "Tests execute one or two fixed transactions per block.",
 [S+"block/executor.rs", S+"block/factory.rs"], [("run / commit split", S+"block/executor.rs run_transaction, commit_transaction_outcome")], observe=["receipts", "bundle state", "block result"],
 note="Enumerated histories over the real executor, compared step by step with isolated executions.")
prop("C24", "System contracts are deployed and block hooks run before transactions",
 "Before the first transaction of a block, the parent-hash and beacon-root contracts are called as their EIPs say, and the system contracts of the active hardforks are in the state with exactly their published code; accounts that already hold that code are not changed, storage and balances survive, and inactive hardforks deploy nothing. A system call has 30,000,000 gas of its own, costs nobody anything and changes nobody's nonce. From then on accounts left empty vanish from the state; finishing the block adds what the base schedule requires (a block reward before the Merge), and every change is reported to the installed state hook. The published code of each contract version matches its published hash.",
 ["histories", "configurations"], "every combination of hardfork, pre-existing account state and block header fields in the domain, over several blocks",
 "Tests check single deployments on an empty state.",
 [S+"block/executor.rs", S+"block/eips.rs", S+"system/oracle.rs", S+"system/keyless_deploy.rs", "crates/system-contracts/src/lib.rs"],
 [("pre-execution changes", S+"block/executor.rs pre_execution_changes")], observe=["state after the pre-execution phase"],
 note="Product of configurations and multi-block histories against a reference transition.")
prop("C25", "Hardfork schedules select the documented spec and limits",
 "For every schedule and timestamp the active spec is that of the latest activated MegaETH hardfork (EQUIVALENCE when none is), and each spec and hardfork comes with its documented transaction and block limits, which a context or executor enforces by default. Spec names convert to and from text without loss and specs are ordered by age.",
 ["configurations", "inputs"], "all schedules over the forks x activation times in the domain x timestamps",
 "Tests check a few schedules; default limits are checked by value, not by enforcement at the boundary.",
 [S+"block/hardfork.rs", S+"evm/spec.rs", S+"block/limit.rs", S+"evm/limit.rs", S+"constants.rs"],
 [("latest activated hardfork wins", S+"block/hardfork.rs"), ("limits per spec", S+"evm/limit.rs")], observe=["spec id", "limits", "outcomes at the default limits"],
 note="Exhaustive schedules against a reference; default limits enforced at their exact boundary by executed transactions.")
prop("C26", "Merging state changes equals applying them one after another",
 "Merging a later set of account changes into an earlier one and committing the result gives the same state as committing the two in order, for any combination of created, destroyed, touched, loaded and unchanged accounts and slots. The original values recorded for a slot remain those before the first change.",
 ["histories", "inputs"], "all sequences of up to four transactions that create, write, fund, touch, read and destroy a contract",
 "Tests cover a few merges.",
 [S+"evm/state.rs"], [("status and storage merge", S+"evm/state.rs merge_evm_state")], observe=["merged state", "committed database"],
 note="Enumerated histories of real transactions; every way to merge their changes is committed and compared with committing them in order.")
prop("C27", "Reported bucket and block-hash accesses are exactly those used",
 "The buckets reported as accessed after executing a block's transactions are exactly those whose capacity determined a storage-gas charge, and the block hashes reported are exactly those read with their values; both accumulate over the transactions of a block and start empty in the next block. Every capacity is asked from the external service for the right bucket, and at most once per block.",
 ["programs", "histories"], "all program trees in the bound and all sequences of transactions and block changes",
 "Tests check one access.",
 [S+"external/gas.rs", S+"evm/mod.rs", S+"evm/state.rs", S+"evm/context.rs"], [("bucket cache keyed per block", S+"external/gas.rs")],
 [("bucket multipliers", "cached per block", S+"external/gas.rs")], ["accessed bucket ids", "accessed block hashes", "queries to the capacity service"],
 note="Enumerated programs and histories; predicted from the reference execution.")
prop("C28", "Failures of the database or services abort the transaction cleanly",
 "If the database or the bucket-capacity service fails at any point of a transaction, the execution returns an error: it never reports success or a wrong outcome, never panics, and leaves nothing behind; the next transaction on the same EVM behaves as if the failed one had not been submitted. Without failures the outcome does not depend on whether code bytes come with the account record or are fetched by hash.",
 ["fault_sequences", "programs"], "a failure at every single read of every program in the bound",
 "No test injects failures.",
 [S+"evm/host.rs", S+"evm/instructions.rs", S+"evm/execution.rs", S+"limit/state_growth.rs", S+"external/gas.rs"],
 [("errors recorded in the context and returned", S+"evm/instructions.rs, " + S+"evm/execution.rs")], observe=OUT,
 note="Fault enumeration: every read index of every enumerated execution fails once.")
prop("C29", "Fees and values are conserved and paid to the right accounts",
 "For every executed transaction the sender pays exactly gas used times the effective price plus the L1 and operator fees, the base fee, priority fee, L1 fee and operator fee reach their vaults and the beneficiary (unless rewards are disabled), and no other balance changes except by the transfers of the successful execution; total balance changes only by a deposit's mint. This holds for successful, reverted, halted and limit-stopped transactions alike; deposits and system transactions pay nothing.",
 ["inputs", "programs", "configurations"], "all fee settings x programs x limits in the domain",
 "Tests run almost everything at zero gas price.",
 [S+"evm/execution.rs"], [("reimbursement and reward on the final gas", S+"evm/execution.rs")], observe=["balances before and after"],
 note="Product of fee settings, programs and limit settings; balances predicted by formula from gas used.")
prop("C30", "Where no limit binds, results and state are those of a standard EVM",
 "From MINI_REX on, a transaction that has enough gas for the MegaETH pricing and exceeds no limit has the same success or failure, output, logs and post state as on a standard Isthmus EVM; what runs out of gas fails as there. No program and no transaction crashes the executor.",
 ["inputs", "programs"], "all program trees, opcodes, transaction shapes and gas limits in the bound",
 "Tests compare single operations.",
 [S+"evm/instructions.rs", S+"evm/execution.rs", S+"evm/host.rs"], [("standard instructions wrapped, not replaced", S+"evm/instructions.rs")], observe=OUT,
 note="Differential enumeration against op-revm with exactly simulated gas.")

T = "crates/state-test/src/"
prop("C31", "The state-test runner passes a suite exactly when its expectations hold",
 "Running a state-test file (state_test::runner::execute_test_suite and run) succeeds exactly when, for every unit, listed spec and test, the transaction built from the unit's parts at the test's indexes (type as given or implied by its fields, sender as given or recovered from the key), executed on the unit's pre-state in the unit's block environment (chain id 6342 unless given), is rejected if and only if an exception is expected, and otherwise gives the expected output (where one is stated and the execution has one), the hash of its logs and the Merkle root of the post-state without the base fee vault. MiniRex runs the MINI_REX spec, every other name EQUIVALENCE, Constantinople is skipped. A run over several files, with or without threads, tracing or keep-going, succeeds exactly when every file does.",
 ["inputs", "configurations"], "all suites in the bound: transaction forms x environments x indexes x expectations right or wrong, and all sets of passing and failing files x modes",
 "The crate's tests only parse examples; nothing checks that a wrong expectation fails.",
 [T+"runner.rs", T+"utils.rs", T+"types/test.rs", T+"types/test_unit.rs", T+"types/transaction.rs"], [("execute_test_suite / check_evm_execution", T+"runner.rs"), ("tx_env, block_env", T+"types/test.rs")], observe=["result of execute_test_suite; exit status of a process calling run"],
 note="Oracle: op-revm (or a directly configured MegaEvm for MiniRex), own Merkle Patricia trie, RLP and transaction derivation.")

prop("C32", "Custom precompiles replace exactly the addresses given",
 "An EVM factory (and a block executor made from it) that is given a precompile builder installs in every EVM exactly the precompiles the builder returns for that EVM's spec. A transaction to, or a call of any kind to, such an address runs the function once with the call's input, gas, caller, value and addresses; its output, gas and compute gas count like a built-in precompile's, the address is warm, a failing function fails only its own call and consumes that call's gas, and a fatal error aborts the transaction and leaves the following ones unaffected. Every other address behaves as without the builder.",
 ["inputs", "programs", "configurations"], "all calls x outcomes x specs x ways of building the EVM in the bound",
 "Tests install one precompile and call it once.",
 [S+"evm/factory.rs", S+"evm/mod.rs", S+"evm/precompiles.rs", S+"block/factory.rs"], [("with_dyn_precompiles", S+"evm/mod.rs, " + S+"evm/factory.rs"), ("precompile result to compute gas", S+"evm/execution.rs, " + S+"evm/instructions.rs")], observe=OUT+["arguments the precompile function is called with"],
 note="Product enumeration; oracle: a built-in precompile of equal gas, and the log of the calls made.")
prop("C33", "Keyless-deployment messages are encoded as published and decode back",
 "encode_error_result gives, for every error, the ABI encoding of the published Solidity error of that name, and decode_error_result gives the error back (except a halt's reason); what is not such an encoding (another selector, truncated data) decodes to nothing. decode_keyless_tx accepts exactly the well-formed RLP of a pre-EIP-155 contract creation and gives the fields encoded; recover_signer gives the account of the key that signed it, and the deployment address is that account's first creation address.",
 ["inputs"], "all errors, requests and single-byte damages in the domain",
 "Tests round-trip one or two errors and one request.",
 [S+"sandbox/error.rs", S+"sandbox/tx.rs"], [("encode_error_result / decode_error_result", S+"sandbox/error.rs"), ("decode_keyless_tx / recover_signer", S+"sandbox/tx.rs")], observe=["encoded bytes", "decoded values"],
 note="Exhaustive product of field values, damages and prefixes against an independent encoder.")

prop("C34", "An EVM depends on its settings, not on how they were given",
 "A MegaETH EVM behaves the same whenever its final settings (spec and configuration, block, limits, external services, L1 parameters, database, sandbox and reward switches) are the same: in whichever order they are given, whatever earlier settings they replace, for whichever spec the context was first created, whether it is built directly, by the factory, from an existing Optimism context or through the setters, at any block number including 0, and through whichever of the interfaces (transact, inspect, replay, commit and their variants) a transaction is executed. Replaced services are never asked, an inspector sees all of every transaction executed while it is enabled and nothing of any other, and finishing an EVM gives back the block and configuration it was given.",
 ["configurations", "inputs"], "all orders of the 7 settings x overridden settings x initial and final specs x transactions; all routes and interfaces in the bound",
 "Tests build contexts in one customary order.",
 [S+"evm/context.rs", S+"evm/mod.rs", S+"evm/interfaces.rs", S+"evm/factory.rs", S+"external/gas.rs"], [("with_* setters", S+"evm/context.rs"), ("create_evm", S+"evm/factory.rs"), ("execution interfaces", S+"evm/interfaces.rs")], observe=OUT+["buckets reported", "calls made to the external services"],
 note="Exhaustive permutations; oracle: the same settings given once, in the plain order, to a context created for the right spec.")

prop("C35", "The deployed system contracts answer everyone and obey only the system",
 "On a chain whose system contracts were deployed for its spec, every call of the oracle, the timestamp reader and the keyless deployer does what the contract's published source says, by whatever route it arrives (the system transaction, user and deposit transactions, calls, static, delegated and code calls from contracts, delegated accounts, init code): anyone reads a slot, getting the oracle service's value if it has one and the stored value otherwise; only the system address sets slots or emits logs, and a call of anybody else leaves nothing behind; code run in another account's context sees and changes only that account; calls batched into one are done in order or not at all; from Rex2 the oracle is version 1.1.0 with hints, logs and batches, before it is 1.0.0 without; the timestamp reader passes on slot 0; malformed calls and payments fail.",
 ["histories", "inputs"], "every oracle storage reachable by the calls in the bound (closed under them, so histories of any length) x calls x routes x service values x specs",
 "Tests make single calls of a few functions with one storage and one route.",
 [S+"system/oracle.rs", S+"system/keyless_deploy.rs", S+"system/tx.rs", S+"evm/host.rs", S+"evm/execution.rs"], [("transact_deploy_oracle_contract", S+"system/oracle.rs"), ("sload", S+"evm/host.rs"), ("is_mega_system_transaction", S+"system/tx.rs")], observe=OUT+["world state"],
 note="Explicit-state: reachability of the oracle's storage in a model of the Solidity source, then every transition of the model executed on the implementation with the really deployed code.")

try:
    DONE = set(open(os.path.join(R, "bin", "claimed.txt")).read().split())
except FileNotFoundError:
    DONE = set()

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)),
            ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in DONE:
        checks.append(dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
            technique=p["technique"] or "bounded exhaustive enumeration of executions of the real code against a reference model",
            level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Each check mirrors /repo's crates into /verif/build/ws, compiles the harness against them and enumerates bounded execution spaces. No hooks in /repo are needed.")
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
