#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
X = "src/execution/"
prop("C01", "Numeric instructions compute the WebAssembly function of their operands",
     "For every integer and floating-point constant, unary, binary, comparison, sign-extension, conversion, saturating-truncation and reinterpretation instruction the runtime supports, the value it produces is the WebAssembly-specified function of its operands, in the specified operand order, width and signedness, for all operand bit patterns. This holds whether an operand comes from the stack, a local or a constant and whether the result goes to the stack or to a local. Trapping conditions are the subject of C02.",
     ["inputs", "programs"], "All operand values of every numeric instruction, in every operand and destination form the compiler can choose.",
     "The tests sample a handful of operand values per instruction, mostly through operands on the stack; wrong widths, signs, NaN/zero cases or a swapped operand in one operand form are not reached.",
     [X + "handlers.rs", X + "operand.rs", "src/parser.rs"],
     [("per-instruction handlers", X + "handlers.rs"), ("operand readers and writers", X + "operand.rs"), ("instruction selection", "src/parser.rs decode_processed_instrs_and_fixups")])
prop("C02", "Trapping arithmetic traps exactly on the specified operands",
     "Integer division and remainder trap exactly when the divisor is zero or, for signed division, when the quotient is not representable; float-to-integer truncation traps exactly on NaN, infinities and values whose truncation does not fit the target type; unreachable always traps. When such an instruction traps no result is written and execution of the module stops with that trap; when it does not trap the specified result is produced.",
     ["inputs"], "All operand values, including the boundary values of every integer and float type.",
     "Boundary values (the first float above the largest integer, MIN/-1, -0.5 to unsigned) are individually rare and only some are sampled.",
     [X + "handlers.rs", X + "value.rs"], [("division/remainder/truncation handlers", X + "handlers.rs")])
prop("C03", "Loads and stores access the addressed bytes with the specified width",
     "Every load reads, and every store writes, exactly the bytes of the instruction's width at (unsigned 32-bit address + static offset) in linear memory, little-endian. Narrow loads extend with the sign the instruction names to the full result type, and narrow stores write only the low bytes of the value. This holds for every operand and destination form.",
     ["inputs", "programs"], "All addresses (including those with the top bit set), offsets and stored values, all load and store instructions.",
     "Tests use small addresses and few values, so a sign-extended address, a wrong width or a wrong extension on one form passes.",
     [X + "handlers.rs", X + "mem.rs", "src/parser.rs"], [("memory access handlers", X + "handlers.rs"), ("load/store compilation", "src/parser.rs")])
prop("C04", "Compiled instructions consume and produce operands per their Wasm signature",
     "Every instruction of a valid function is compiled so that it takes its inputs from the operands at the top of the value stack, in order and with the types of its WebAssembly signature, and leaves its results as the new top of the stack with the specified types. No live operand is overwritten by another instruction's result before it is consumed.",
     ["programs"], "All valid function bodies: every instruction sequence and nesting.",
     "The test modules cover a few stack shapes; a compiler slip on one instruction only shows with particular values still live on the stack.",
     ["src/parser.rs", X + "regs.rs"], [("instruction compilation", "src/parser.rs decode_processed_instrs_and_fixups"), ("register allocation", X + "regs.rs RegAllocator")])
prop("C05", "Operand folding never changes a program's result",
     "Folding a local read or constant into the instruction that consumes it, and folding a local write into the instruction that produces the value, gives the same values in locals, stack and memory as executing the instructions one by one. In particular a deferred operand is consumed by exactly the instruction and operand position that would have popped it, with the type it was deferred with.",
     ["programs"], "All valid instruction sequences around foldable reads and writes.",
     "The number of instruction sequences is unbounded; the tests exercise a few adjacent pairs.",
     ["src/parser.rs"], [("folding look-ahead and pending operands", "src/parser.rs can_fold_*, try_fold_dst_*, take_*_operand")])
prop("C06", "Branches transfer the label's values and resume at the label's continuation",
     "Taking br, br_if or br_table to any enclosing label, including loops and the function itself, moves the top operands the label's type requires into the places its continuation reads, in order and for any mix of types, discards the labels inside it, and resumes at the loop start or just after the block. A conditional branch not taken changes nothing, and br_table uses the default for every out-of-range index. Blocks and conditionals likewise leave exactly their results for the code that follows.",
     ["programs", "inputs"], "All label nestings, label types and branch conditions.",
     "Depth, result count, mixed types, loop parameters and function-level targets multiply; tests cover a few combinations.",
     ["src/parser.rs", X + "handlers.rs"], [("branch register computation and target resolution", "src/parser.rs compute_branch_regs, preprocess_instructions"), ("control handlers", X + "handlers.rs")])
prop("C07", "Every compiled instruction is dispatched to the handler that implements it",
     "For every instruction the compiler can emit, the handler that runs for it is the one implementing that WebAssembly instruction and it accepts the operand layout the compiler emitted. A body always ends in an entry that stops the frame, so dispatch never runs past the end or into a missing entry. Statistics and trace output name the instruction executed.",
     ["programs"], "All instructions and operand layouts the compiler can emit.",
     "The dispatch table is an open-coded mapping over 200 entries; tests exercise some entries.",
     [X + "handlers.rs", X + "ir.rs", "src/parser.rs"], [("handler selection table", X + "handlers.rs select_handler"), ("per-function handler arrays", "src/parser.rs decode_code_section")])
prop("C08", "Traps and frame transitions stop dispatch with their cause; others continue",
     "After executing an instruction the runtime continues with the next instruction (or the branch target), or stops dispatch with a recorded trap cause, or stops dispatch with a recorded frame transition; it never continues past a trap, never stops without the cause recorded and never executes an instruction twice or skips one. The loop dispatcher and the tail-call dispatcher agree on this for every instruction.",
     ["programs", "configurations"], "All instructions and both dispatcher builds.",
     "Each build is only tested on the paths the test modules take; a missed program-counter update or trap cause on one path of one handler is not reached.",
     [X + "handlers.rs", X + "dispatch_loop.rs", X + "dispatch_tco.rs", X + "runtime.rs"], [("advance! and sentinels", X + "handlers.rs"), ("dispatchers", X + "dispatch_loop.rs, dispatch_tco.rs")])
prop("C09", "Calls pass arguments, isolate the callee and deliver its results",
     "A call, direct or indirect, starts the callee with its parameters equal to the argument operands in order, all further locals at the zero or null value of their type, and registers of its own, so the caller's registers and locals are unchanged by the callee except for the result registers. When the callee returns by any route its result values, in order, become the caller's result operands, and after the outermost call they are the values reported to the embedder.",
     ["programs", "histories"], "All call trees, signatures and return routes.",
     "Recursion, mixed lanes, multi-value results and return routes multiply; tests use a few shallow calls.",
     [X + "runtime.rs", X + "state.rs", X + "regs.rs", X + "handlers.rs"], [("frame push and pop", X + "runtime.rs Runtime::run"), ("register windows", X + "regs.rs save_offsets/restore_offsets")])
prop("C10", "Memory accesses always use the current memory after growth",
     "Whenever linear memory is grown, by the running function, a callee or after a restore, every later load and store of any live function reaches the current memory, never the block it was moved from.",
     ["histories"], "All interleavings of memory.grow with calls, returns, host calls, checkpoints and restores.",
     "A stale base pointer only shows when the allocator moves the block and an outer frame resumes; the tests do not force that.",
     [X + "state.rs", X + "runtime.rs", X + "handlers.rs", X + "migration.rs", X + "mem.rs"], [("cached base pointer refresh", X + "runtime.rs, handlers.rs memory_grow, migration.rs restore")])
prop("C11", "Registers of every type are saved, restored, copied and counted alike",
     "The register file treats the i32, i64, f32, f64, reference and v128 lanes uniformly: entering a function gives it fresh slots in every lane, leaving gives back exactly the caller's slots in every lane, reading returns what was last written to that lane and slot, and copying moves the value of the lane named. Compile-time register counts never understate the slots used in any lane.",
     ["programs", "histories"], "All lanes, slots, call depths and push/pop histories.",
     "Tests use mostly i32/i64 and shallow calls; a slip in one lane of one operation is not reached.",
     [X + "regs.rs"], [("RegFile and RegAllocator", X + "regs.rs")])
prop("C12", "A checkpoint captures all state the resumed program depends on",
     "Everything a running program can change and later observe - linear memory, globals, tables, dropped segments, and every frame's locals, labels, position, registers and pending result locations - is either in the checkpoint or re-derived from the module on restore, for all live frames and labels.",
     ["crash_points", "histories"], "All points at which a checkpoint can fire and all prior histories.",
     "Checkpoints can fire between any two instructions at any call depth; no test in the suite takes a checkpoint and restores it.",
     [X + "migration.rs", X + "state.rs", X + "regs.rs", X + "table.rs", X + "data.rs"], [("checkpoint serialisation", X + "migration.rs checkpoint"), ("serde derives and skips", X + "state.rs, regs.rs, value.rs")])
prop("C13", "Restore rebuilds every live frame consistently and resumes where it stopped",
     "Restoring a checkpoint into the same module reinstates memory, globals and all frames, re-deriving for every live frame the code, handlers, module and memory references of the function that frame was executing, and execution resumes at the instruction that had not yet run. Checkpointing keeps working after a restore.",
     ["crash_points", "histories"], "All checkpoint positions, call depths and repeated checkpoint/restore cycles.",
     "No test restores a checkpoint; the frame reconstruction code runs only with live nested frames.",
     [X + "migration.rs", X + "runtime.rs", X + "state.rs"], [("restore", X + "migration.rs restore"), ("resumption", X + "runtime.rs new_restored/run/execute_frame")])
prop("C14", "A checkpoint request is noticed in every running function and dispatcher",
     "With checkpointing enabled, every frame - initial, called or restored - polls for a request before each instruction in both dispatchers and in instrumented builds, the poll reaches the trigger at a bounded number of executed instructions no matter how calls are interleaved, and a noticed request stops execution before the next instruction with the request as cause. With checkpointing disabled it never stops.",
     ["schedules", "programs", "configurations"], "All programs, call patterns, dispatcher builds and trigger times.",
     "No test requests a checkpoint; the throttle only matters for particular call patterns.",
     [X + "migration.rs", X + "runtime.rs", X + "dispatch_loop.rs", X + "dispatch_tco.rs", X + "handlers.rs"], [("poll_checkpoint", X + "migration.rs"), ("poll sites", X + "dispatch_loop.rs, dispatch_tco.rs, handlers.rs next_handler")])
prop("C15", "A checkpoint or restore that fails is reported as failed",
     "A checkpoint is reported as taken only after the complete state was serialised and written without error, and any failure to read, decode or apply a checkpoint makes restore fail instead of resuming with partial state. The trigger is consumed only when it is honoured.",
     ["fault_sequences", "inputs"], "All I/O and decode failures and all malformed or foreign checkpoint files.",
     "The tests inject no I/O faults and restore no malformed files.",
     [X + "migration.rs", X + "runtime.rs", "src/main.rs"], [("error propagation", X + "migration.rs, runtime.rs, main.rs")])
prop("C16", "Each WASI import runs the named host operation with its arguments in order",
     "A call to a wasi_snapshot_preview1 import executes the operation of that name, with each guest argument, at its WASI position, width and signedness, reaching the corresponding argument of the host operation, and the operation's error number as the call's result. Every function the importer accepts is callable, and an import declared with another type than WASI gives the function is refused at load.",
     ["programs", "inputs"], "All imported WASI functions and argument values.",
     "Each of 46 functions has up to nine same-typed arguments; tests cover some functions with arguments for which a swap is not visible.",
     [X + "runtime.rs", "src/wasi/passthrough.rs", "src/structure/module.rs", X + "handlers.rs"], [("dispatch on function name", X + "runtime.rs call_wasi_function"), ("pass-through implementation", "src/wasi/passthrough.rs")])
prop("C17", "Guest-supplied WASI pointers are checked against linear memory",
     "Before a WASI call reads or writes guest memory, or hands the host a pointer into it, the whole range the guest named is checked to lie inside linear memory and the call fails without touching memory otherwise.",
     ["inputs"], "All guest pointers and lengths.", "Tests pass valid pointers only.",
     ["src/wasi/passthrough.rs", X + "mem.rs"], [("range checks", "src/wasi/passthrough.rs")])
prop("C18", "WASI results reach the guest's result pointers only on success",
     "Each WASI call that reports results through guest pointers writes each result, with the WASI-specified width, to the address given for that result, when and only when the host operation succeeded, and returns the host's error number unchanged either way. It writes nothing to guest memory besides its results.",
     ["inputs", "fault_sequences"], "All host outcomes, including failures, for every result-returning WASI function.",
     "The tests mostly take the success path of a subset of the functions.",
     ["src/wasi/passthrough.rs"], [("result stores", "src/wasi/passthrough.rs")])
prop("C19", "call_indirect only ever calls an initialised entry of the expected type",
     "call_indirect transfers control only when the table index is in bounds, the entry is a function and its type equals the type the instruction names; in every other case it traps and no callee instruction runs. The callee invoked is the one stored in the named table at that index.",
     ["inputs", "programs"], "All indices, table contents and signatures.",
     "Tests cover a few indices; structurally equal types, null entries and out-of-range indices in combination are not enumerated.",
     [X + "handlers.rs", X + "table.rs", X + "func.rs"], [("call_indirect handler", X + "handlers.rs call_indirect")])
prop("C20", "Globals keep their type and immutable globals keep their value",
     "global.get returns the value last stored in the named global, global.set and restore store only into mutable globals and only values of the global's type, and each access uses the global's own type. An immutable global never changes after instantiation.",
     ["programs", "histories"], "All sequences of accesses to globals of every type.",
     "Tests access one or two globals.", [X + "global.rs", X + "handlers.rs", "src/parser.rs"], [("GlobalAddr", X + "global.rs"), ("global handlers", X + "handlers.rs")])
prop("C21", "memory.grow and memory.size follow the specification at every size",
     "memory.grow adds exactly the requested number of zeroed 64 KiB pages and returns the previous size in pages, or returns -1 and changes nothing when the result would exceed the declared maximum or 65536 pages; requests are unsigned. memory.size returns the current number of pages. Existing contents are preserved.",
     ["inputs", "histories"], "All requested deltas (0 to 2^32-1), declared limits and grow histories.",
     "Tests grow by small amounts; huge and negative-looking deltas are not sampled.",
     [X + "mem.rs", X + "handlers.rs"], [("mem_grow/mem_size", X + "mem.rs"), ("handlers", X + "handlers.rs")])
prop("C22", "Instantiation applies the module's initialisers in full and in order",
     "Instantiating a module creates its functions, tables, memory and globals with imports first in each index space, evaluates constant initialisers, copies active element and data segments to their offsets or fails if one does not fit, exposes exports under their names, and then runs the start function if there is one. A failure makes instantiation fail.",
     ["programs"], "All modules: every combination of sections and segment offsets.",
     "Test modules use few sections at once and valid offsets.",
     [X + "module.rs", X + "mem.rs", X + "table.rs", "src/parser.rs"], [("ModuleInst::new", X + "module.rs")])
prop("C23", "Statistics and tracing never change what a program computes",
     "Building with or enabling statistics and tracing only observes: it never changes registers, locals, memory, globals, control flow, checkpoint polling or results of the program, and all flag combinations are accepted.",
     ["configurations", "programs"], "All programs under all instrumentation flag combinations.",
     "The test suite is run without the instrumentation features.",
     [X + "stats.rs", X + "trace.rs", X + "handlers.rs", X + "runtime.rs"], [("cfg-gated instrumentation", X + "stats.rs, trace.rs")])
prop("C24", "Only valid modules are executed; malformed input is reported, not run",
     "A module that WebAssembly validation rejects, or that cannot be decoded, is refused with an error before any of its code runs, and the command-line tool reports the failure and exits unsuccessfully instead of running a partial module.",
     ["inputs"], "All byte strings given as modules.",
     "Tests feed mostly valid modules.", ["src/parser.rs", "src/main.rs"], [("parse_bytecode", "src/parser.rs"), ("main", "src/main.rs")])
prop("C25", "The decoded module contains what the binary says",
     "Each section of the binary is decoded into the module without loss or permutation: types keep parameter and result order, function, table, memory and global index spaces put imports first, limits keep minimum and maximum, mutability and initialisers are kept per global, exports and segments keep kind, index, offset and contents, and locals keep count and type.",
     ["inputs"], "All module binaries.", "Tests look at a few fields of a few modules.",
     ["src/parser.rs", "src/structure/module.rs", "src/structure/types.rs"], [("section decoders", "src/parser.rs decode_*_section")])
prop("C26", "Bulk memory operations move exactly the specified bytes",
     "memory.copy behaves as if through an intermediate buffer for overlapping ranges, memory.fill writes the low byte of the value, memory.init copies from the named data segment at the named source offset; destination, source and length are the instruction's operands in order and unsigned. memory.init traps, without copying, when its source range reaches past the segment's end; a dropped segment behaves as empty, and data.drop affects only the named segment.",
     ["inputs", "histories"], "All operand values and segment states.",
     "Tests use small non-overlapping ranges.", [X + "mem.rs", X + "handlers.rs", X + "data.rs"], [("bulk memory", X + "mem.rs, handlers.rs")])
prop("C27", "Table and reference instructions read and write the named entry or trap",
     "table.get, table.set and table.fill access exactly the named table at the unsigned index operand and trap without changing the table when any accessed entry is out of bounds; ref.null yields null, ref.is_null tells null from non-null, and references keep their identity through locals, tables and registers.",
     ["inputs", "programs"], "All indices, lengths, table sizes and reference values.",
     "Tests use a handful of indices.", [X + "table.rs", X + "handlers.rs"], [("table handlers", X + "handlers.rs"), ("TableAddr", X + "table.rs")])
prop("C28", "select and variable instructions move the right value of the right type",
     "select yields its first operand when the condition is non-zero and the second otherwise, for operands of every type; local.get, local.set, local.tee read and write exactly the named local of any type and drop discards one operand.",
     ["programs", "inputs"], "All operand types, conditions and local indices.",
     "Tests cover numeric types on a few indices.", [X + "handlers.rs", "src/parser.rs"], [("select and local handlers", X + "handlers.rs"), ("compilation", "src/parser.rs")])
prop("C29", "Restoring a checkpoint and continuing equals never having stopped",
     "For every program, input and checkpoint position, checkpointing, restoring and running to completion yields the same results, output and memory as an uninterrupted run, across dispatcher builds and host runtimes.",
     ["crash_points", "histories", "configurations"], "All programs and positions, all hosts.",
     "An equality of complete executions; no test performs it.", [X + "migration.rs", X + "runtime.rs"], [("checkpoint/restore", X + "migration.rs")])
prop("C30", "A requested checkpoint happens promptly and costs little when idle",
     "With checkpointing enabled the time from creating the trigger to the finished checkpoint is bounded and the idle polling overhead is a small constant factor.",
     ["schedules"], "All programs, hosts and trigger times.", "Timing is not tested.", [X + "migration.rs"], [("poll throttle and monitor thread", X + "migration.rs")])
prop("C31", "Out-of-bounds linear memory accesses of the guest trap",
     "A load, store, memory.copy, memory.fill or memory.init whose range is not entirely inside the guest's linear memory traps and changes nothing, and can never read or change the interpreter's own memory.",
     ["inputs"], "All addresses, offsets and lengths.", "Tests access memory in bounds.", [X + "handlers.rs", X + "mem.rs"], [("raw pointer access", X + "handlers.rs mem_load!/mem_store!")])
prop("C32", "The two dispatchers and all host runtimes give identical results",
     "Any module and input gives the same results, traps and output under the loop and the tail-call build on every supported host runtime.",
     ["configurations", "programs"], "All modules, builds and hosts.", "The test suite runs each build on one host only.", [X + "dispatch_loop.rs", X + "dispatch_tco.rs"], [("dispatchers", X + "dispatch_loop.rs, dispatch_tco.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
