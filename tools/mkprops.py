#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json
S="crates/host/state/src/"; R="crates/host/runtime/src/"; F="crates/host/runtime-ffi/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Committed layers survive crashes and restarts",
 "Once a commit has reported success, every account, variable and template written up to that layer, its layer number and its state root read back exactly after any process crash, power loss or orderly restart. Nothing that was never committed is visible after reopening, and an existing database always reopens and continues with the next layer number.",
 ["crash_points","schedules","histories"],
 "for every history of writes, checkpoints, commits, rewinds and restarts, every instant at which the process or the machine dies (including during recovery itself), and every subset or tearing of writes not yet synced",
 "The tests only use an in-memory database, never reopen one and never stop in the middle of an operation.",
 [S+"storage.rs",S+"global_state.rs",S+"resources/schema.sql"],
 [("Storage::new_with_pool, delete_bad_layers, max_layer_id",S+"storage.rs"),("SQLite WAL with full sync via sqlx",S+"storage.rs")],
 [("layers/values tables","the committed layers",S+"resources/schema.sql")],["GlobalState::new","GlobalState::current_layer","AccountStorage getters"])
p("C02","Commit is all-or-nothing and a failed commit can be retried",
 "A commit that is cut short by a crash or that meets a storage error takes effect completely or not at all: values, layer number and state root always correspond to exactly the state before it or after it. A commit that reports an error loses nothing: the changes stay pending and readable, and retrying once storage works again commits exactly the same content as one layer.",
 ["crash_points","fault_sequences","schedules"],
 "for every set of pending changes, every I/O operation of the commit at which a crash, write error, short write, full disk, failed sync, lock error or allocation failure occurs, and every schedule of the database workers",
 "No test injects a storage error or a crash into a commit; they only see commits that succeed.",
 [S+"storage.rs"],[("Storage::commit",S+"storage.rs"),("layers.complete flag",S+"resources/schema.sql")],
 [("next_layer.changes","checkpointed changes of the next layer",S+"storage.rs")],["GlobalState::commit"])
p("C03","Reads as of a committed layer never change",
 "Reading any account field, variable or template as of a committed layer returns exactly what was current when that layer was committed, however many layers are committed later, whatever is dirty or checkpointed at the moment, whoever else reads or writes concurrently and however often the node restarts, until that layer itself is rewound away.",
 ["histories","schedules","crash_points"],
 "for every history, every layer of it, every key (written before, in or after that layer, or never) and every interleaving of historical readers with a writer",
 "Tests read history only at the initial empty layer or the latest layer of a two-layer history.",
 [S+"storage.rs",S+"global_state.rs",S+"account_storage.rs"],
 [("get_by_hash_historical",S+"storage.rs"),("layer_query_parameter",S+"global_state.rs")],[],["GlobalState::layer_query_parameter_mut","AccountStorage getters","TemplateStorage::sections"])
p("C04","Rewind restores exactly the chosen layer, for good",
 "After a successful rewind to a committed layer, every read, the current layer number and the state root are exactly those of that layer, checkpointed changes are gone, no removed layer ever comes back, not even after a crash, and new layers are numbered from there. A rewind is refused while dirty changes exist, and a refused, invalid or failed rewind leaves everything usable and in the state before or after it.",
 ["histories","crash_points","fault_sequences"],
 "for every history, target layer, crash point inside the rewind and storage error during it, followed by any further history",
 "Tests rewind at most one uncommitted layer, never delete a committed one and check a single key.",
 [S+"storage.rs",S+"global_state.rs",R+"runtime/runtime.rs"],[("Storage::rewind, foreign key cascade",S+"storage.rs")],[],["GlobalState::rewind","svm_rewind"])
p("C05","Dirty, checkpointed and committed changes obey the layer protocol",
 "The latest read of any key returns the last value written to it that has not been undone: writes are visible at once, rollback undoes exactly the writes since the last checkpoint, checkpointed writes survive rollback, and commit publishes exactly the checkpointed writes as one new layer. Commit is refused, changing nothing, while dirty changes exist, and the dirty-changes query answers truthfully.",
 ["histories","schedules","fault_sequences"],
 "for every sequence of writes, reads, checkpoints, rollbacks, commits and rewinds over overlapping keys, through any number of cloned handles, with failing storage operations in between",
 "Tests use one short fixed sequence of these operations on distinct keys.",
 [S+"storage.rs",S+"global_state.rs"],[("dirty_changes / next_layer.changes overlays",S+"storage.rs")],
 [("dirty_changes","writes since the last checkpoint",S+"storage.rs")],["GlobalState","AccountStorage"])
p("C06","The state root is a deterministic, binding function of the content",
 "The state root reported for a layer depends only on the layer's position and the last value each layer up to it wrote to each key, never on write order, checkpoint grouping, restarts, faults or rewinds on the way; equal histories give equal roots. Two layers at the same position with different content have different roots, every changed, added or overwritten value being reflected, and the root returned by commit is the one reported for that layer afterwards.",
 ["histories","schedules","crash_points","inputs"],
 "for every content history, every order and grouping of the writes that produce it, and every restart, rewind or failed attempt along the way",
 "Two unit tests compare a handful of roots of one-key layers; they pass although the content does not enter the root at all.",
 [S+"storage.rs"],[("checkpoint fingerprint, commit, xor_fingerprint",S+"storage.rs")],
 [("changes_xor_fingerprint","what the next layer adds to the root",S+"storage.rs")],["GlobalState::commit","GlobalState::current_layer","CallReceipt.new_state"])
p("C07","Genesis is initialised exactly once, atomically",
 "Opening an empty or partly initialised database creates exactly the genesis state, completely or not at all: after any crash or storage error during initialisation, a later successful open yields exactly the configured genesis templates. Opening an initialised database never re-runs genesis, never alters or hides later data, and the genesis state root is always the same for the same configuration.",
 ["crash_points","fault_sequences","schedules","configurations"],
 "for every crash point and storage error inside the first and any later opening, and every genesis configuration",
 "Tests open a fresh in-memory database once and never interrupt it.",
 [S+"global_state.rs",S+"storage.rs","crates/host/genesis-config/src/lib.rs"],[("GlobalState::init_genesis, genesis_fingerprint",S+"global_state.rs")],[],["GlobalState::new","svm_runtime_create"])
p("C08","Account storage behaves as independent records",
 "Each account's name, template, balance, counter and fixed-layout variables read back exactly the last values set, for any layout; setting one never changes another variable, field or account, including variables sharing a storage segment. This holds when several handles to the same state read and write different accounts or variables of different accounts concurrently.",
 ["inputs","schedules","histories"],
 "for every fixed layout, variable, value and sequence of updates over several accounts, and every interleaving of concurrent handles on different accounts",
 "One test writes each variable of one layout once with constant bytes, in one thread.",
 [S+"account_storage.rs",S+"global_state.rs"],[("var_segments, set_var_bytes, replace",S+"account_storage.rs")],[],["AccountStorage"])
p("C09","Templates read back as stored",
 "A deployed or genesis template reads back with exactly the sections it was stored with, at once, after commit, as of any later layer and after a crash, until it is overwritten; templates at different addresses never affect each other or any account.",
 ["inputs","histories","crash_points"],
 "for every set of sections and history of template and account writes, commits, rewinds and restarts",
 "One test stores one template with empty code in memory and reads back that the code is empty.",
 [S+"template_storage.rs","crates/host/codec/src/template.rs"],[("TemplateStorage::create/sections/set_core/set_noncore",S+"template_storage.rs")],[],["TemplateStorage::sections","Runtime::deploy"])
p("C10","A failed transaction leaves no trace",
 "A spawn or call that does not succeed, whether it traps, aborts inside a host function, runs out of gas, names a missing or forbidden function or meets a storage error, leaves no effect on accounts, balances or storage: every read, the committed layer and the state root are as if it had never been submitted, now and after any later transaction, commit or restart. Changes that earlier successful operations left pending are not lost or published by it.",
 ["programs","fault_sequences","histories"],
 "for every program, failure point (any number of effects before the failure), storage fault and history of later transactions",
 "Tests check that a failing call yields a failure receipt, never what it left in the state or what later commits publish.",
 [R+"runtime/runtime.rs",R+"vmcalls/storage.rs",R+"vmcalls/transfer.rs"],[("Runtime::exec, spawn, commit_changes",R+"runtime/runtime.rs")],[],["Runtime::call","Runtime::spawn","svm_call","svm_spawn"])
p("C11","Transfers conserve coins",
 "No transfer, through the API or from inside a contract, creates or destroys coins: a successful transfer debits the source and credits the destination by exactly the amount, also when both are the same account; one that fails for lack of funds, overflow or a missing account, or that meets a storage error, changes no balance. The sum of balances changes only by explicit account creation or balance increases.",
 ["histories","programs","fault_sequences"],
 "for every sequence of transfers (any pair including equal accounts, any amount up to the maximum), programs with several transfers, failures and storage faults between debit and credit",
 "Tests transfer once between two different accounts with enough funds.",
 [R+"runtime/runtime.rs",R+"vmcalls/transfer.rs"],[("Runtime::transfer",R+"runtime/runtime.rs"),("svm_transfer vmcall",R+"vmcalls/transfer.rs")],[],["Runtime::transfer","Runtime::get_account","svm_transfer"])
p("C12","Verify never changes state",
 "Verifying a transaction never creates a layer, changes an account, balance, variable or state root, or touches pending changes, whether it accepts, rejects, traps, tries to use storage or meets a storage error; storage access during verification is refused. A transaction whose verification code runs to completion is reported as verified.",
 ["programs","histories","fault_sequences"],
 "for every verification program, transaction, pending state and storage fault",
 "Only a rejecting verification is tested; nothing looks at the state afterwards.",
 [R+"runtime/runtime.rs",R+"func_env.rs"],[("AccessMode::AccessDenied, Runtime::verify",R+"runtime/runtime.rs")],[],["Runtime::verify","svm_verify"])
p("C13","Replicas executing the same history agree byte for byte",
 "Two nodes that apply the same sequence of transactions and layer operations produce byte-identical encoded receipts, identical state roots and identical account contents, whatever their thread schedules, core counts, system randomness, clock, disk speed, pool timing or restarts between layers.",
 ["schedules","histories","configurations"],
 "for every transaction history and every pair of environments (schedule, hash seeds, worker counts, latency, restart points)",
 "Every test runs one node in one environment; none compares encoded receipts between runs.",
 [R+"runtime/runtime.rs","crates/host/codec/src/receipt",S+"storage.rs"],[("receipt encoding, root computation",R+"runtime/runtime.rs")],[],["svm_deploy","svm_spawn","svm_call","svm_layer_info"])
p("C14","Transaction execution follows the reference semantics",
 "Deploy, spawn and call have exactly the effects their code prescribes: constructors run only on spawn and other functions only on call, storage, transfer, log, calldata, allocation and return-data host calls act on the executing account as documented, memory handed out by an allocation never overlaps memory handed out before, and insufficient gas for deploy or spawn is reported as out of gas with no effect, and a template whose gas is unknown in advance (its code has loops or recursion) can't be spawned. The receipt reports success, logs, return data, touched accounts and the new state truthfully, the new state being the root of the layer the transaction created.",
 ["programs","histories","schedules"],
 "for every generated template, transaction sequence and schedule, with reads before, between and after",
 "Tests run one transaction per fixture and check one effect each; receipts are not compared with the state across histories.",
 [R+"runtime/runtime.rs",R+"func_env.rs",R+"vmcalls/mod.rs"],[("Runtime::deploy/spawn/call, vmcalls",R+"runtime/runtime.rs")],[],["Runtime::deploy","Runtime::spawn","Runtime::call"])
p("C15","C API runtimes are isolated and released",
 "Runtimes created through the C API are independent: operations on one, from any threads at once, never affect another's state, and the runtime count is exact at every moment. A returned result (receipt or error text) stays as it was returned until it is freed. Destroying a runtime releases its database and threads and makes its handle invalid: later uses and a second destroy return errors, and a database can be reopened through a new runtime with all its committed state.",
 ["schedules","histories"],
 "for every interleaving of creations, operations, destructions and invalid uses over several runtimes and threads",
 "Tests create and destroy runtimes one after another in one thread and look only at the count.",
 [F+"c_api.rs",F+"resource_tracker.rs",F+"result.rs"],[("ResourceTracker",F+"resource_tracker.rs")],[],["svm_runtime_create","svm_runtime_destroy","svm_runtimes_count"])
p("C16","The C API contains every failure",
 "Whatever a C API call meets (malformed or truncated messages, unknown accounts, trapping programs, invalid handles or layers, storage errors, failing thread creation), it returns an error or failure receipt and the process survives. Once the cause is gone, the same runtime, other runtimes and new runtimes keep working normally with correct state.",
 ["fault_sequences","inputs","schedules"],
 "for every failure at every point of every call, followed by any further calls on any runtime",
 "Tests cover a few malformed messages and one failing program; none injects a storage failure or continues to use the runtime afterwards.",
 [F+"c_api.rs",S+"global_state.rs"],[("catch_unwind_or_fail",F+"c_api.rs"),("Mutex<Storage>",S+"global_state.rs")],[],["svm_* functions"])
p("C17","An in-memory runtime keeps its state while it lives",
 "A runtime or global state created in memory keeps every committed layer, checkpointed and dirty change for as long as it lives: idle hours, concurrent readers and bursts of parallel commits neither lose state nor make operations fail, and an operation that fails because memory is momentarily short loses nothing and can be retried.",
 ["schedules","histories"],
 "for every history with idle periods of any length between operations and any number of concurrent readers",
 "Tests live for milliseconds and use one connection at a time.",
 [S+"global_state.rs",S+"storage.rs"],[("connection pool of the in-memory database",S+"storage.rs")],[],["GlobalState::in_memory","svm_runtime_create with a null path"])
p("C18","Every operation completes once faults stop",
 "No sequence of operations deadlocks or hangs: with any number of threads sharing one state, on disks slowed or stalled for a while, every operation returns, with a result or an error, within a bounded simulated time, and after the last fault normal service resumes.",
 ["schedules","fault_sequences"],
 "for every interleaving of concurrent operations on shared handles, every bounded stall and latency profile and every transient storage error",
 "Tests are sequential on an instantaneous in-memory database.",
 [S+"global_state.rs",S+"storage.rs",R+"func_env.rs"],[("Mutex<Storage> held across awaits, connection pool",S+"global_state.rs")],[],["GlobalState","Runtime"])
p("C19","Contracts written with the SDK keep their data and values",
 "A contract written with the SDK and deployed with the layout that its generated metadata describes behaves as its source says: every getter of a storage field or array element returns the value last set for exactly that field or element of that account (zero before), at every width and sign and across layers, rewinds and restarts; arguments arrive and results leave unchanged in the ABI encoding; an index out of range, or calldata that is truncated or of the wrong type, fails the transaction without effect.",
 ["histories","inputs","fault_sequences"],
 "for every sequence of constructor and endpoint calls with any argument values, interleaved with commits, rewinds, faults, crashes and restarts",
 "Tests exercise the generated accessors against a mock storage, or run a compiled contract once with a few values.",
 ["crates/wasm/sdk-macros/src/struct/storage.rs","crates/wasm/sdk-storage/src/lib.rs","crates/wasm/sdk-storage-ffi/src/ext.rs","crates/wasm/sdk-host-ffi/src/ext.rs","crates/wasm/abi-encoder/src/types/numeric.rs","crates/wasm/abi-decoder/src/decoder.rs",R+"vmcalls/storage.rs"],[("generated getters and setters","crates/wasm/sdk-macros/src/struct/storage.rs"),("storage operations","crates/wasm/sdk-storage/src/lib.rs")],[],["#[template]","#[storage]","#[ctor]","#[endpoint]"])
pure="A pure function of its input: no schedule, clock, I/O, crash or multi-party behaviour for it to depend on."
def n(id,title,st,files,over=("inputs",)):
    p(id,title,st,list(over),"for every input",pure+" Unit tests sample a few inputs.",files,[("see files",files[0])])
n("N01","Binary encodings round-trip and reject malformed input","Encoding any transaction, template, envelope, context or receipt and decoding it yields the same value, and decoding arbitrary bytes returns an error or a value without crashing.",["crates/host/codec/src/lib.rs"])
n("N02","Gas estimates are upper bounds and deterministic","For every loop-free program, the fixed-gas estimate of a function is deterministic and at least the cost of any of its executions; programs with loops or recursion are rejected in fixed-gas mode.",["crates/host/gas/src/lib.rs"],("programs",))
n("N03","Template validation rejects forbidden programs","Every deployed program that validates has no floating-point instructions, has the mandatory exports and well-formed structure; arbitrary bytes are rejected without a crash.",["crates/host/program/src/lib.rs"],("programs",))
n("N04","ABI encoding round-trips","Every SDK value encoded by the ABI encoder decodes to the same value, and malformed calldata is rejected.",["crates/wasm/abi-encoder/src/lib.rs","crates/wasm/abi-decoder/src/lib.rs"])
n("N05","SDK macros and metadata describe the template","The code and JSON metadata generated by the template macro describe exactly the declared storage, constructors and endpoints.",["crates/wasm/sdk-macros/src/lib.rs"],("programs",))
n("N06","JSON and CLI tools produce what the binary API accepts","Every transaction crafted by the CLI or JSON codec decodes to the described transaction and vice versa.",["crates/host/codec/src/api/json","crates/host/cli/src/main.rs"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["title"]
    assert x["statement"].count(". ")<=2,(x["id"],x["statement"])
