#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("G01", "Gas is conserved across every call tree",
  "For every contract call or deployment, including any tree of nested, asynchronous and built-in calls, the gas charged to all accounts in the result plus the gas forwarded to other shards plus the gas returned as remaining equals the gas provided in the transaction (for an asynchronous callback, including the gas locked for it). Every account is charged what its own code used: nested calls do not shift charges between accounts, and gas sent along is taken from its sender. A failed transaction returns no remaining gas.",
  ["inputs", "programs", "configurations"],
  "all gas limits, gas schedules, amounts burnt by each contract, gas limits given to nested calls, and success/failure of each nested call, for call trees up to the stated depth",
  "The gas tests fix the schedule, the limits and one call tree each; conservation depends on how arbitrary limits, failures and forwarded gas combine across the whole tree.",
  ["arwen/contexts/metering.go", "arwen/contexts/output.go", "arwen/host/execution.go", "arwen/host/asyncCall.go", "arwen/elrondapi/elrondei.go"],
  [("gas accounting", "arwen/contexts/metering.go"), ("nested execution and gas restoration", "arwen/host/execution.go"), ("gas of forwarded calls", "arwen/elrondapi/elrondei.go")])

p("G02", "Execution never outruns its gas and every operation is paid for",
  "A contract execution that needs more gas than it was given ends as out of gas and leaves no effects; no sequence of operations, nested calls or failures lets it consume more than the gas limit. Every operation of the contract API charges the cost the gas schedule assigns to it, including its per-byte part, before or together with its effect.",
  ["inputs", "programs", "configurations"],
  "all schedules, gas limits, data lengths up to the bound and API operations",
  "Tests use one fixed schedule and check a few operations; the charge must hold for every schedule, limit and length.",
  ["arwen/contexts/metering.go", "arwen/elrondapi/elrondei.go", "arwen/elrondapi/bigIntOps.go", "arwen/elrondapi/smallIntOps.go", "arwen/cryptoapi/cryptoei.go"],
  [("charging", "arwen/contexts/metering.go"), ("out of gas detection", "arwen/host/breakpoints.go")])

p("V01", "Value is conserved and nobody spends more than they have",
  "In every result, balances move only by explicit transfers: the balance changes of all accounts sum to the value that came in with the transaction, and no account ends below zero. A transfer or a nested call carrying more value than the sender holds at that moment, or a negative value, fails and moves nothing.",
  ["inputs", "programs"],
  "all balances, call values, transfer amounts and orders of transfers and nested calls up to the bound",
  "Tests use sample balances and single transfers; overspending depends on combinations of earlier transfers, nested calls and failures.",
  ["arwen/contexts/output.go", "arwen/host/execution.go", "arwen/contexts/blockchain.go"],
  [("transfers", "arwen/contexts/output.go"), ("balance with pending changes", "arwen/contexts/blockchain.go")])

p("A01", "A failed nested call leaves no trace except its consumed gas",
  "When a contract calls another contract and the callee fails for any reason, everything the callee and its own nested calls did is discarded: storage, balances, transfers, logs, return data, created or upgraded contracts. Where the failure does not fail the caller as well, the caller sees an error result and goes on, and the final result equals that of a run in which the callee had done nothing but burn its gas.",
  ["inputs", "programs", "fault_sequences"],
  "all effects of the callee, all failure reasons and points, both kinds of synchronous call, callers that did or did not touch the same accounts",
  "Tests exercise one failing child with fixed effects; leaks depend on which effect precedes which failure.",
  ["arwen/host/execution.go", "arwen/contexts/output.go", "arwen/contexts/storage.go", "arwen/contexts/runtime.go"],
  [("state stack", "arwen/host/execution.go"), ("output stack", "arwen/contexts/output.go")])

p("A02", "The effects of a successful nested call appear exactly once",
  "When a nested call succeeds, its storage writes, transfers, logs, return data and deployed code appear in the final result together with those of the caller, each exactly once, in execution order, later writes winning over earlier ones. Nothing the caller had done before the call is lost or changed by it.",
  ["inputs", "programs"],
  "all keys, values, data and transfers made before, during and after the nested call, for both kinds of synchronous call",
  "Merging is tested for fixed small outputs; the property is about every interleaving of caller and callee effects.",
  ["arwen/contexts/output.go", "arwen/host/execution.go"],
  [("merging of outputs", "arwen/contexts/output.go")])

p("I01", "A nested call leaves the caller's execution context untouched",
  "After any nested call returns, whether it succeeded or failed, the caller continues with exactly its own context: same contract address, caller, call value, arguments, function, gas provided, transaction hashes, big-integer handles, read-only mode and memory. Only the documented result channel of the call may differ.",
  ["inputs", "programs"],
  "all call kinds, inputs, values and outcomes, nesting up to the bound",
  "Tests check selected fields after one nested call; any field may leak for some combination of call kind and outcome.",
  ["arwen/host/execution.go", "arwen/contexts/runtime.go", "arwen/contexts/bigint.go", "arwen/elrondapi/elrondei.go"],
  [("push and pop of contexts", "arwen/host/execution.go")])

p("S01", "Storage behaves as a per-contract map and reports exact changes",
  "A read of a storage key returns the value most recently written to it in this transaction by the same contract, or else the value held by the ledger; contracts never see or alter each other's keys. The final result lists every key whose value changed, with its last value, and lists no other change (keys only read or rewritten may be listed with the value they have), and the status given to the writer is unchanged, added, modified or deleted according to the value before and after.",
  ["inputs", "histories"],
  "all keys, initial values and sequences of reads and writes by the contracts of a call tree, up to the stated number and length",
  "Tests write a few chosen keys; read-your-writes must hold for every history of writes, reads and nested calls.",
  ["arwen/contexts/storage.go", "arwen/contexts/output.go", "arwen/elrondapi/elrondei.go"],
  [("get, set, status", "arwen/contexts/storage.go")])

p("S02", "Protected storage keys cannot be written by contracts",
  "No contract operation writes a key that starts with the protocol's reserved prefix or one that the virtual machine reserves for its own bookkeeping, directly, through another contract, or by building the key in any way; the attempt fails the execution. Keys outside the reserved ranges are always writable.",
  ["inputs", "programs"],
  "every key up to the stated length and every storage-writing operation",
  "Only a few literal keys are tested.",
  ["arwen/contexts/storage.go", "arwen/common.go", "arwen/helpers.go"],
  [("reserved keys", "arwen/contexts/storage.go")])

p("S03", "Storage writes are charged and refunded by their size change",
  "Writing a value costs the per-byte store price for the bytes added, the per-byte persist price for those that stay, and releases gas for the bytes removed, as given by the gas schedule; an unchanged value is not charged as a new one. The charge depends only on the old value, the new value and the schedule.",
  ["inputs", "configurations"],
  "all old and new values up to the stated length and all per-byte prices",
  "The tests use fixed prices and a few lengths.",
  ["arwen/contexts/storage.go"],
  [("gas of a write", "arwen/contexts/storage.go")])

p("R01", "Read-only executions change nothing",
  "While a contract runs in read-only mode, no operation, in it or in anything it calls, changes storage, balances, code or logs, or sends value, tokens or asynchronous calls; every attempt is refused. The mode ends exactly when the read-only call ends, and an enclosing read-only call stays read-only.",
  ["programs", "inputs"],
  "all operations attempted in read-only mode and all nestings of read-only and ordinary calls up to the bound",
  "Tests try a storage write only.",
  ["arwen/contexts/storage.go", "arwen/contexts/runtime.go", "arwen/contexts/output.go", "arwen/elrondapi/elrondei.go", "arwen/host/execution.go"],
  [("read-only flag", "arwen/contexts/runtime.go"), ("read-only call", "arwen/elrondapi/elrondei.go")])

p("M01", "Overflow-guarded arithmetic is exact or saturates",
  "Every guarded arithmetic helper returns the mathematically exact result whenever it fits the type. Otherwise it saturates at the limit of the type or reports an error, as its contract says, and never wraps.",
  ["inputs"], "all pairs of 64-bit and 32-bit operands",
  "Tests sample a handful of boundary values.",
  ["math/overflow.go"], [("guarded helpers", "math/overflow.go")])

p("M02", "Contract memory accesses stay inside the contract's memory",
  "Reading contract memory at any offset and length returns exactly the bytes asked for, with zeros for those past the end of the memory, or is refused; writing stores exactly the bytes given, growing the memory by at most one page, or is refused without changing any byte. Neither ever touches anything outside, or crashes; negative offsets and negative lengths are refused. Loading several blocks at once returns each block exactly as loading it alone would.",
  ["inputs"], "all 32-bit offsets and lengths, all memory sizes and contents up to the bound",
  "Tests use a few offsets; the danger lies in wrapped sums and sign conversions.",
  ["arwen/contexts/runtime.go", "arwen/elrondapi/elrondei.go"],
  [("bounded memory access", "arwen/contexts/runtime.go")])

p("N01", "No contract can crash the node",
  "Whatever arguments a contract passes to any operation of the contract API, in whatever state, the virtual machine returns a normal result or a failed one; it never aborts by an unrecovered fault, and the host can serve the next transaction. Operations refuse invalid handles, negative sizes and out-of-range positions.",
  ["inputs", "programs"], "every API operation with all integer arguments and all memory contents up to the bound",
  "Tests call operations with valid arguments only.",
  ["arwen/elrondapi/elrondei.go", "arwen/elrondapi/bigIntOps.go", "arwen/elrondapi/smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "arwen/host/arwen.go"],
  [("API functions", "arwen/elrondapi/"), ("panic recovery", "arwen/host/arwen.go")])

p("B01", "Big-integer operations are exact and touch only their destination",
  "Every big-integer operation stores in the destination handle exactly the mathematical result of its operands, for all aliasings of the handles, and leaves every other handle unchanged; operations undefined for the operands (division by zero, negative bitwise or shift operands) fail the execution. Unknown handles read as zero and new handles never collide with live ones.",
  ["inputs", "histories"], "all operand values up to the stated width and all choices and aliasings of handles",
  "Tests compute a few sample values with distinct handles.",
  ["arwen/elrondapi/bigIntOps.go", "arwen/contexts/bigint.go"],
  [("big-integer operations", "arwen/elrondapi/bigIntOps.go"), ("handles", "arwen/contexts/bigint.go")])

p("B02", "Argument, storage and result conversions of integers are lossless",
  "Reading an argument or storage value as a 64-bit signed or unsigned integer yields exactly the number encoded, or fails when it does not fit; a big integer reports whether it fits in 64 bits and is then read exactly. Writing a 64-bit or big integer to storage or to the results writes its minimal big-endian (two's complement where signed) encoding. Reading back what was written returns the same number.",
  ["inputs"], "all 64-bit values and all byte strings up to the stated length",
  "Tests use small sample numbers.",
  ["arwen/elrondapi/smallIntOps.go", "arwen/elrondapi/bigIntOps.go"],
  [("conversions", "arwen/elrondapi/smallIntOps.go")])

p("D01", "Only valid code is deployed and only callable functions are called",
  "A deployment succeeds only if the code passes validation: a memory is declared, exports do not clash with names reserved by the API or the protocol's built-in functions, have no parameters or results, and names are well formed; this holds for deployments by users and by contracts alike. Initialisation runs once at deployment or upgrade, and neither it nor the asynchronous callback can be called directly by anyone.",
  ["inputs", "programs"], "all sets of exports, imports, names and signatures up to the bound, and all function names asked for",
  "Tests use a handful of fixed binaries.",
  ["arwen/contexts/validator.go", "arwen/contexts/reservedFunctions.go", "arwen/contexts/runtime.go", "arwen/host/execution.go"],
  [("code validation", "arwen/contexts/validator.go"), ("function selection", "arwen/contexts/runtime.go")])

p("D02", "Only the owner can upgrade an upgradeable contract",
  "The code of an existing contract changes on the request of a contract only when its owner asks for it, the contract is marked upgradeable, and the operation succeeds; otherwise code, metadata and owner stay as they were. An upgrade installs exactly the code and metadata given, at the same address.",
  ["inputs", "programs"], "all callers, owners, metadata bytes, arguments and routes (direct, nested, asynchronous)",
  "Tests cover one permitted and one refused upgrade.",
  ["arwen/host/execution.go", "arwen/elrondapi/elrondei.go", "arwen/host/asyncCall.go"],
  [("upgrade permission", "arwen/host/execution.go")])

p("D03", "Deployments get the right address, nonce, owner, code and metadata",
  "A successful deployment reports one new account at the address derived from the creator and the creator's nonce at that moment, carrying exactly the given code, metadata and owner, and raises the nonce of a contract creator by one. Two deployments in one transaction never get the same address, and a failed deployment reports no new code.",
  ["inputs", "programs"], "all nonces, codes, metadata and orders of deployments up to the bound",
  "Tests deploy once with one nonce.",
  ["arwen/contexts/blockchain.go", "arwen/contexts/output.go", "arwen/host/execution.go"],
  [("new address", "arwen/contexts/blockchain.go"), ("deploy output", "arwen/contexts/output.go")])

p("E01", "Every failure is reported with the right code and no effects",
  "Each way an execution can end is reported with its own return code: success, user error, out of gas, execution failure, function not found, contract not found, invalid contract, out of funds, wrong arguments; the call never reports success when the contract failed. A failed result carries no state change at all: no account updates, no logs, no return data.",
  ["inputs", "programs", "fault_sequences"], "all ways of failing, at every point of an execution that has already had effects",
  "Tests trigger each failure from a clean state.",
  ["arwen/host/execution.go", "arwen/contexts/output.go", "arwen/host/arwen.go", "arwen/errors.go"],
  [("error to return code", "arwen/contexts/output.go")])

p("W01", "Contract instances are released and their number is bounded",
  "Every contract instance created for a transaction is released exactly once by the time the transaction is over, except one kept warm for reuse, on every path including failures and crashes inside nested calls; no instance is used after its release. Nesting deeper than the allowed number of instances fails the call and nothing else.",
  ["programs", "fault_sequences", "histories"], "all call trees and failure points up to the bound, with and without warm instances",
  "Tests count instances for one success and one failure.",
  ["arwen/contexts/runtime.go", "arwen/host/execution.go", "arwen/host/arwen.go"],
  [("instance stack", "arwen/contexts/runtime.go")])

p("H01", "A transaction's result does not depend on earlier transactions",
  "Executing a transaction on a host that has already executed other transactions, successful, failed or crashed, gives exactly the result a fresh host gives on the same ledger state. Nothing (handles, results, logs, modes, gas, pending calls, instances) is carried over.",
  ["histories", "inputs"], "all pairs of transactions from the modelled programs, with every outcome of the first",
  "Tests mostly use a fresh host per case.",
  ["arwen/host/arwen.go", "arwen/host/execution.go", "arwen/contexts/output.go", "arwen/contexts/runtime.go"],
  [("initialisation per transaction", "arwen/host/execution.go")])

p("C01", "Asynchronous calls run in the right way and always report back",
  "An asynchronous call to a contract in the same shard runs at once and its callback is run exactly once with the result of the call: return code and data on success, code and message on failure; a call to another shard is sent out exactly once with its data, value and gas, and its callback is run when the answer comes back. A failure of the destination never undoes the caller's own work, and gas locked for the callback is available to it.",
  ["inputs", "programs"], "all destinations, values, gas amounts, outcomes of the destination and of the callback",
  "Tests cover fixed contracts and outcomes.",
  ["arwen/host/asyncCall.go", "arwen/elrondapi/elrondei.go", "arwen/contexts/metering.go", "arwen/contexts/output.go"],
  [("execution mode and callback", "arwen/host/asyncCall.go")])

p("C02", "Pending asynchronous calls are tracked until each is answered",
  "A group of asynchronous calls created together is remembered across transactions until every one of them has been answered; each answer removes exactly its own entry and runs its own callback. The order of processing, and therefore the result, is the same on every node.",
  ["inputs", "histories", "schedules"], "all sets of pending calls up to the bound, all orders of answers, all iteration orders of internal maps",
  "Tests use one pending call and cannot observe iteration order.",
  ["arwen/host/asyncCall.go"], [("pending call bookkeeping", "arwen/host/asyncCall.go")])

p("T01", "Token transfers move exactly what was asked or nothing",
  "A token transfer made by a contract asks the ledger for exactly the token, nonce, amount, sender and receiver given, reports exactly one transfer to the receiver on success and none on failure, and charges the gas the ledger reports. If the receiver is a contract in the same shard its function runs with the token information of this transfer, and if that fails the token transfer is undone as well.",
  ["inputs", "programs", "fault_sequences"], "all tokens, nonces, amounts, gas limits, functions and outcomes",
  "Tests stub the ledger with one fixed answer.",
  ["arwen/host/execution.go", "arwen/elrondapi/elrondei.go", "arwen/contexts/output.go"],
  [("token transfer", "arwen/host/execution.go")])

p("L01", "Logs and return data are reported exactly as written, in order",
  "Each log entry a successful execution writes appears once in the result with its address, identifier, topics and data exactly as given; return values appear once each, in the order they were added. Later memory changes by the contract do not alter them.",
  ["inputs", "programs"], "all topics, data and return values up to the bound, across nested calls",
  "Tests write one log of fixed content.",
  ["arwen/contexts/output.go", "arwen/elrondapi/elrondei.go"], [("logs", "arwen/contexts/output.go")])

p("K01", "A storage time lock is reported exactly until it expires",
  "A lock set on a storage key until a given time is reported as that time, and the key is reported locked exactly while the block time is before it; clearing the lock ends it at once. Locking one key never affects another key, its lock, or any stored value, and locks are part of the stored state of the contract that set them.",
  ["inputs", "histories"], "all keys, lock times, block times and sequences of lock, write, query and clear operations",
  "Tests use one key and two instants.",
  ["arwen/elrondapi/elrondei.go", "arwen/contexts/storage.go"], [("storage locks", "arwen/elrondapi/elrondei.go")])

p("P01", "Messages between node and machine process arrive complete and unchanged",
  "Any message sent over the pipe between node and virtual-machine process is received as the same message, whatever its size and however the bytes are split in transit; a broken length, kind or payload is an error and never a different message. Converting a result to its wire form and back yields the same result. A transaction given to the machine process over the pipe yields the same result or error as the virtual machine in the same process, and every question the machine asks the node's blockchain hook arrives with the same arguments and gets the hook's own answer, error or panic-free failure included.",
  ["inputs", "schedules"], "all payloads up to the bound, all ways of splitting the stream, all corruptions of the header; all hook questions and answers",
  "Tests send one message through an intact pipe.",
  ["ipc/common/receiver.go", "ipc/common/sender.go", "ipc/common/serializableVMOutput.go", "ipc/arwenpart/hookGateway.go", "ipc/nodepart/part.go", "ipc/arwenpart/part.go"],
  [("framing", "ipc/common/receiver.go"), ("wire form of results", "ipc/common/serializableVMOutput.go")])

p("O01", "Test scenarios mean what they say",
  "The value notations of test scenarios (decimal, hexadecimal, binary, signed, strings, addresses, widths, concatenations) denote exactly the documented bytes, malformed ones are refused and none crashes the reader, and rewriting a value, a step or a whole document in canonical form and reading it back gives the same value, with no field lost or invented. The state a scenario sets is the state the accounts get, and a check of a result, a log, an account, its storage or its tokens accepts exactly the values the expectation denotes.",
  ["inputs"], "all numbers and byte strings up to the bound, all combinations of fields given and left out",
  "Tests use sample literals and sample scenario files.",
  ["mandos-go/expression/interpreter", "mandos-go/expression/reconstructor", "mandos-go/orderedjson", "mandos-go/json/parse", "mandos-go/json/write", "mandos-go/json/model", "arwenmandos"],
  [("value interpreter", "mandos-go/expression/interpreter"), ("scenario reading", "mandos-go/json/parse"), ("scenario execution and checks", "arwenmandos")])

p("O02", "Scenario transactions have exactly their declared effect",
  "A transaction step of a scenario (transfer, reward, call, deployment, query) charges its gas and advances the sender's nonce once, asks the virtual machine exactly what the step says, and then applies exactly what the machine returned: balances, storage, nonces, code, new and deleted accounts. Value is never made or lost by it. A transaction that fails, cannot be paid, or whose result does not add up changes nothing but the sender's gas and nonce, tokens included.",
  ["inputs", "histories", "faults"], "all balances, values, nonces, gas limits and machine results up to the stated sizes; all kinds of transactions",
  "Tests run sample scenarios in which every step is accepted.",
  ["arwenmandos/stepRunTx.go", "arwenmandos/execScenario.go", "mock/world"],
  [("transaction steps", "arwenmandos/stepRunTx.go"), ("state and rollback", "mock/world/worldUpdate.go")])

p("X01", "Encoding helpers are exact inverses and bounds are respected",
  "The variable-length integer, padding, reversing and key-building helpers keep every value exactly (decoding gives it back) and do not disturb their input; the slicing helpers give exactly the bytes asked for and never read outside their input. Gas schedules are accepted only when every cost is present and positive, and each cost is then used as given.",
  ["inputs", "configurations"], "all values and byte strings up to the stated length; all schedules",
  "Tests use sample values and one schedule file.",
  ["arwen/helpers.go", "config/gasCost.go", "config/gasSchedule.go"],
  [("helpers", "arwen/helpers.go"), ("schedule loading", "config/gasCost.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
