#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that it is easy to edit)."""
import json, os
TR = "crates/revmc-codegen/src/compiler/translate/mod.rs"
PH = "crates/revmc-codegen/src/compiler/translate/peephole.rs"
VS = "crates/revmc-codegen/src/compiler/translate/vstack.rs"
BC = "crates/revmc-codegen/src/bytecode/mod.rs"
PA = "crates/revmc-codegen/src/bytecode/passes/"
BI = "crates/revmc-builtins/src/lib.rs"
BU = "crates/revmc-builtins/src/utils.rs"
CX = "crates/revmc-context/src/lib.rs"
CM = "crates/revmc-codegen/src/compiler/mod.rs"
IN = "crates/revmc-codegen/src/bytecode/info.rs"

RB = "crates/revmc-runtime/src/runtime/backend.rs"
RM = "crates/revmc-runtime/src/runtime/mod.rs"
RW = "crates/revmc-runtime/src/runtime/worker.rs"
RS = "crates/revmc-runtime/src/runtime/storage.rs"
RC = "crates/revmc-runtime/src/runtime/config.rs"
RT = "crates/revmc-runtime/src/runtime/stats.rs"
RA = "crates/revmc-runtime/src/runtime/api.rs"

CJ = "crates/revmc-context/src/jit_evm.rs"
RE = "crates/revmc-runtime/src/revm_evm.rs"
RL = "crates/revmc-runtime/src/alloy_evm.rs"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Word and stack instructions compute what the EVM defines",
     "A compiled program's arithmetic, comparison, bitwise, shift, hashing, push, dup and swap instructions leave exactly the "
     "256-bit values the reference interpreter leaves, for every operand value. This holds for single instructions and for any "
     "sequence in which results are reordered, duplicated, dropped or fed to further instructions.",
     ["inputs", "programs"], "all 256-bit operands; all short straight-line programs over these instructions",
     "Tests run each instruction on a handful of operand values; a wrong result for one corner of 2^512 operand pairs (sign, overflow, "
     "shift by 256 and more, division by zero or minus one) or one order of shuffles goes unnoticed.",
     [TR, PH, VS, BI], [("per-opcode translation", TR), ("virtual stack", VS), ("arithmetic builtins", BI)],
     ["return data of the compiled function", "final stack under stack inspection"])
prop("C02", "Constants known to the compiler never change results",
     "Whether an operand is a constant in the code or only known at run time makes no difference to what a program computes, to the gas "
     "it uses, or to whether it fails. Values folded or rewritten at compile time equal those the instructions would have produced.",
     ["inputs", "programs"], "all constant values and all subsets of constant operands of an instruction, and short sequences of them",
     "The compiler has folding and rewriting rules guarded by conditions on the constants (zero, one, powers of two, small, all ones); tests "
     "exercise a few constants per rule, not the guards' boundaries.",
     [PA + "const_fold.rs", PH, PA + "block_analysis.rs", "crates/revmc-codegen/src/bytecode/interner.rs"],
     [("constant folding", PA + "const_fold.rs"), ("peephole rewriting", PH), ("constant interning", "crates/revmc-codegen/src/bytecode/interner.rs")],
     ["return data", "gas"])
prop("C03", "Gas is charged exactly and running out is never missed",
     "For every gas limit, a compiled program that completes has used exactly the gas, refunds and state gas the interpreter would have "
     "used, on every hardfork and under every configured table of gas prices. It fails if and only if the interpreter fails for that gas limit, and reading the remaining gas inside the program gives the "
     "interpreter's value.",
     ["inputs", "programs", "configurations"], "all gas limits; all operand values; every fork with a price change",
     "Compiled code charges whole sections of instructions at once; tests use a few gas limits, while an error shows only at limits between two "
     "charges, or for particular dynamic costs.",
     [TR, PA + "sections.rs", PA + "memory_sections.rs", BI, "crates/revmc-builtins/src/gas.rs", IN],
     [("gas sections", PA + "sections.rs"), ("dynamic gas in builtins", BI), ("static costs", IN)],
     ["remaining gas and refund after the run", "GAS instruction"])
prop("C04", "Stack underflow and overflow are detected exactly",
     "A compiled program fails with a stack error exactly when the interpreter does: no instruction runs on too few words, and "
     "the stack never exceeds 1024 words. No compiled access touches memory outside the stack.",
     ["inputs", "programs"], "all initial heights at the limits, all instructions, all short sequences across block boundaries",
     "Checks are made once per section from the section's summed effect; tests cover some heights, not every combination of height and sequence.",
     [PA + "sections.rs", TR, VS], [("stack sections", PA + "sections.rs"), ("section checks", TR)], ["result of the run"])
prop("C05", "Memory contents, growth and size are exact",
     "Loads, stores, copies and hashes see and leave exactly the bytes, memory size and expansion cost the interpreter defines, for "
     "any offset and length including overlapping, zero-length and unreachable ones.",
     ["inputs", "programs"], "all contents; offsets and lengths around word boundaries, zero, far and beyond 64 bits; sequences of accesses",
     "Expansion checks are dropped or merged where analysis proves them redundant; tests sample a few offsets, and the cases where a proof is "
     "wrong need a particular order of accesses.",
     [PA + "memory_sections.rs", TR, PH, BI, BU, CX], [("memory size analysis", PA + "memory_sections.rs"), ("resize builtin", BI)],
     ["return data", "memory size", "gas"])
prop("C06", "Control flow goes exactly where the EVM says",
     "Every jump of a compiled program reaches the destination the stack names if and only if that is a valid jump destination, and fails "
     "otherwise; the path taken, and everything computed along it, are the interpreter's. This includes targets computed from "
     "constants, return addresses used by several callers, loops, joins with different stack contents and unreachable code.",
     ["inputs", "programs"], "all jump targets and conditions; all small control flow graphs",
     "Jump resolution is a global abstract interpretation whose mistakes need a particular combination of call sites and stack "
     "contents; tests contain a fixed list of programs.",
     [PA + "block_analysis.rs", BC, TR], [("jump resolution", PA + "block_analysis.rs"), ("jump tables", TR)],
     ["result and return data"])
prop("C07", "Environment and data reads return the context's values",
     "Instructions that read the call, transaction, block, code, input or return data give exactly what the execution context holds, "
     "with out-of-range parts zero or failing as defined.",
     ["inputs", "configurations"], "all environment values, all offsets around the ends of the data, every fork",
     "Tests use one fixed environment whose fields are often equal or zero, so that confusions of fields or byte order can go unnoticed.",
     [TR, PH, BI, CX], [("builtins", BI), ("context layout", CX)], ["return data"])
prop("C08", "State effects, logs and static protection match",
     "A compiled program makes the same storage, transient storage, balance, code, self-destruct and log requests of the host as the interpreter, in the same "
     "order with the same arguments, and treats every answer alike. In a static call every state-changing instruction fails.",
     ["inputs", "programs", "configurations"], "all operands, all host answers, static or not, every fork",
     "Costs and refunds depend on original, present and new values and on warm or cold access; tests sample few combinations and one host.",
     [BI, BU, TR], [("host builtins", BI)], ["recorded host calls", "gas and refund", "result"])
prop("C09", "Calls and creations suspend and resume correctly",
     "A call or creation in compiled code asks for exactly the frame the interpreter would ask for, with the same gas, value, input, "
     "memory range and flags. When resumed with any result, the program continues as the interpreter would, with every earlier stack word and memory byte intact.",
     ["inputs", "programs", "histories"], "all operands, all child results, sequences of two, every fork with different rules",
     "Words that live only in registers have to be stored before the suspension and found again after it; tests use a fixed number of "
     "programs and child results.",
     [TR, BI, CX, PA + "dead_store_elim.rs"], [("call and create builtins", BI), ("resume points", TR), ("call glue", CX)],
     ["frame requests", "results after resumption"])
prop("C10", "Endings deliver the right output and status",
     "A program that stops, returns, reverts, self-destructs or hits an invalid instruction ends with the status, output bytes and gas the "
     "interpreter gives, and, if stack inspection is on, with the interpreter's final stack.",
     ["inputs", "programs", "configurations"], "all offsets and lengths of the output, all memory contents, with and without inspection",
     "Endings have separate paths for constant operands, empty output and inspection; tests check the status and some outputs.",
     [TR, PH, BI, CX], [("return and revert", PH), ("result glue", CX)], ["interpreter action returned"])
prop("C11", "Each hardfork's instruction set and rules apply",
     "On every supported hardfork exactly that fork's instructions exist; an instruction that is not yet active, or unassigned, fails as the "
     "interpreter's does, and an active one follows that fork's rules and prices.",
     ["inputs", "configurations"], "every opcode byte on every fork, all operands",
     "Tests run most instructions on the latest fork only.",
     [IN, BC, TR, BI], [("instruction tables per fork", IN), ("fork checks in translation", TR)], ["result", "gas"])
prop("C12", "Compiler options and optimisations are unobservable",
     "Merging equal blocks, removing dead computations, the budget for folding constants, stack inspection and the detail of error "
     "reporting never change a program's results, gas or effects. With gas metering switched off, a program that has enough gas still gives "
     "the same results and effects.",
     ["programs", "configurations", "inputs"], "all small programs of shapes these passes act on, under each option",
     "A wrong merge or removal needs blocks that look alike to the pass but are not, or a value that seems dead; tests contain examples the "
     "passes handle.",
     [PA + "dedup.rs", PA + "dead_store_elim.rs", TR, VS], [("block merging", PA + "dedup.rs"), ("dead store elimination", PA + "dead_store_elim.rs")],
     ["results under each option"])
prop("C13", "Any byte string compiles, and runs without memory errors",
     "Compiling terminates without an error, panic or invalid memory access for every byte string, including truncated immediates, unassigned opcodes "
     "and jumps anywhere. Running the result ends like the interpreter does.",
     ["programs", "configurations"], "all byte strings up to the bound, in several contexts, on old and new forks",
     "Fuzzing samples; a panic on one two-byte pattern is missed by fixed test programs.",
     [BC, PA + "block_analysis.rs", TR, CM], [("decoding", BC), ("analysis", PA + "block_analysis.rs"), ("translation", TR)],
     ["result of compiling", "panics", "invalid accesses"])
prop("C14", "Host failures surface as fatal errors",
     "If the host's database fails during any instruction, the compiled program ends with the fatal external error the interpreter reports, never with "
     "a result, and never reports one otherwise.",
     ["fault_sequences", "programs"], "a failure at every host call of every instruction that makes one, on old and new forks",
     "Tests' hosts never fail.",
     [BI, BU], [("error conversion in builtins", BU)], ["result of the run"])

prop("C15", "The runtime only hands out the program that was asked for",
     "Whenever the runtime returns a compiled program for a code hash and hardfork, that program was successfully compiled from exactly the code supplied under that key, for that "
     "hardfork, with the configured optimisation level, gas costs and compiler options, and its machine code stays in memory as long as anyone holds it. Code that is empty or longer than the "
     "configured limit is always reported ineligible, and nothing else is.",
     ["schedules", "histories", "configurations"], "all interleavings of callers, backend and workers within the preemption bound; all outcomes of compilations; all limits and options",
     "A mix-up of keys, kinds or generations needs a particular order of requests, results and clears on several threads; tests run one caller against a fast backend.",
     [RB, RM, RW, RA], [("lookup", RM), ("publication of results", RB), ("compilation jobs", RW)], ["LookupDecision", "get_compiled"])
prop("C16", "Blocking requests are answered in time, and other calls never wait",
     "A blocking compilation request or lookup always returns: when the program is there, when its compilation has failed, when it was refused, or when a clear overtook it, and not before. Lookups "
     "outside blocking mode, pause and resume never wait for anything. Dropping the last handle ends the backend and its workers.",
     ["schedules", "fault_sequences", "histories"], "all interleavings within the preemption bound, failing compilations, full queues, clears at any point",
     "A lost or early answer needs a request, a result and a clear in one particular order; tests see the usual order only, and a hang shows as a rare timeout.",
     [RB, RM, RW], [("answers to waiting callers", RB), ("blocking requests", RM), ("worker pool", RW)], ["return of compile_jit_sync and lookup_blocking", "resident map after the return"])
prop("C17", "A clear forgets everything from before it",
     "Once a clear of the resident programs has been carried out, no program that was compiled, being compiled, or asked for only before it is found any more, however late its "
     "compilation finishes; clearing everything removes the persisted artifacts too. Requests made after the clear are served as usual.",
     ["schedules", "histories"], "all interleavings of requests, lookups, compilations and clears within the preemption bound",
     "The compilation has to be in flight, or the lookup event queued, at the moment of the clear; tests clear an idle backend.",
     [RB, RM, RS], [("generations", RB), ("clear commands", RB)], ["get_compiled after a clear"],
     state=[("generation", "number of clears; results of older generations are discarded", RB)])
prop("C18", "Code is compiled exactly when it should be, once, and within limits",
     "Code is compiled if it was explicitly requested or was looked up at least as often as the threshold says, and otherwise never; code beyond the size limit never is. The same code for the same hardfork is "
     "not compiled again while a compilation is under way or its result is there. Never more jobs are in flight or waiting than configured.",
     ["schedules", "histories", "configurations"], "all thresholds and size limits, all interleavings of observed and explicit requests within the preemption bound",
     "Duplicate jobs, lost counts and exceeded limits depend on the order in which events, requests and results reach the backend.",
     [RB, RC, RW], [("admission", RB), ("limits", RC)], ["compilations started"])
prop("C19", "Only programs that may be evicted are, and those that must be are",
     "A program that was found stays until it has been idle for longer than configured or the code memory exceeds its budget. Idle programs are evicted at the next sweep that is due; for the budget, "
     "least recently used programs go first and no more of them than needed; ahead-of-time compiled ones do not count.",
     ["histories", "configurations", "inputs"], "all sequences of compiling, using and waiting up to the bound; all durations, intervals and budgets",
     "Eviction depends on exact times and sizes relative to configured limits; tests use one set of values with slack.",
     [RB, RC], [("eviction sweep", RB)], ["resident map", "evictions counted"], state=[("last use of each program", "time of the last noted hit", RB)])
prop("C20", "Switching on and off and pausing act at once and lose nothing",
     "While the runtime is switched off no lookup returns a program and each says that it is disabled; while it is on none says so. Programs that were there when it was switched off are there when it is switched on again. The backend is started "
     "by the first call that needs it, and commands given before are not lost. Pauses nest, and do not change what lookups return.",
     ["histories", "configurations"], "all sequences of calls up to the bound, with small and large queues",
     "Lazy start, queued commands and nested pauses combine in many orders; tests try single ones.",
     [RM, RB], [("lazy start", RM), ("pause depth", RM)], ["LookupDecision", "enabled", "is_paused"])
prop("C21", "Statistics and compilation callbacks tell the truth",
     "When nothing is going on, the statistics report exactly the jobs dispatched, succeeded and failed, the programs resident and evicted, the hits, misses and dropped events; nothing is reported pending or "
     "queued. The callback is called once for each compilation that was not overtaken by a clear, with its outcome.",
     ["schedules", "histories"], "all interleavings of lookups, requests, failures and clears within the preemption bound",
     "Counters drift only when results are dropped, queues overflow or compilations fail at particular moments.",
     [RT, RB, RM], [("counters", RT)], ["stats()", "on_compilation callback"])
prop("C22", "Persisted artifacts survive restarts and are reused",
     "A program compiled ahead of time into an artifact store is found by every later backend on that store without compiling it again, under its own key only, until the "
     "store is cleared. Clearing the resident programs leaves the store alone and clearing the store leaves resident programs alone.",
     ["histories"], "all sequences of preparing, clearing and restarting up to the bound",
     "Tests restart once with one artifact.",
     [RS, RB, RM], [("artifact store", RS), ("preloading", RM), ("probing the store", RB)], ["get_compiled after a restart", "compilations started", "contents of the store"])

prop("C23", "An EVM wrapped for compiled code behaves like the EVM it wraps",
     "A transaction, system call or replay through JitEvm (of revmc-context, of revmc-runtime, or behind alloy's Evm and EvmFactory) gives "
     "the result, gas, logs, state changes and database error that the plain EVM gives, whatever lookups answer and whichever of the frames, "
     "nested calls and creations run compiled. A frame only ever runs a program compiled from its own code for the hardfork in force, also "
     "after the hardfork or the backend was changed between transactions; inspectors see the same calls, creations, ends, logs and "
     "self-destructs in the same order as in the plain EVM.",
     ["inputs", "programs", "configurations"], "all answers to lookups; all storage words, balances, gas limits, blocks; call and create trees up to three deep; hardfork or backend changes between transactions",
     "Whether a frame runs compiled depends on timing and on the caller's configuration; tests run one contract compiled, not every mixture of compiled "
     "and interpreted frames, with failures inside, a changed hardfork, an inspector or a failing database.",
     [CJ, RE, RL, CX],
     [("dispatch of frames to programs", CJ), ("lookup cache", RE), ("inspector forwarding", RE), ("alloy bindings", RL)],
     ["execution results and states of transactions", "inspector callbacks", "which program runs"])
prop("C24", "Compilations by one compiler do not influence each other",
     "A program compiled by a compiler that compiled other programs before, under other options or on another hardfork, and that was or was not "
     "cleared in between, behaves like the interpreter, as one compiled by a fresh compiler does.",
     ["programs", "configurations", "histories"], "all single instructions and program shapes, after another program or themselves",
     "The workers keep one compiler for many programs; tests make a new one each time, so what one compilation leaves behind is never seen by the next.",
     [CM, TR, BI], [("compiler state", CM), ("declared builtins", "crates/revmc-builtins/src/ir.rs")], ["results of programs compiled later"])
prop("C25", "The assembler and the disassembler mean what the bytes mean",
     "Assembling a source gives exactly the code its instructions, numbers, labels and macros say: a push holds its number in the fewest or the named number of "
     "bytes, a label's push leads to the place it marks, stack positions are encoded as EIP-8024 defines them, and a source that means nothing is rejected "
     "without a crash. Walking over code finds each instruction and immediate where the interpreter would, and printed code assembles to the same bytes.",
     ["inputs"], "all source texts and bytecodes",
     "Tests assemble a few dozen sources; label layout is a fixed point over widths and the encodings have over a hundred cases.",
     ["crates/revmc-codegen/src/bytecode/asm.rs", "crates/revmc-codegen/src/bytecode/opcode.rs"],
     [("assembler", "crates/revmc-codegen/src/bytecode/asm.rs"), ("opcode iterator and encodings", "crates/revmc-codegen/src/bytecode/opcode.rs")],
     ["code returned by parse_asm", "text of format_bytecode", "items of OpcodesIter"])
prop("C26", "Words and stacks convert without loss",
     "A word converted to or from a number, an address, a size or bytes of either order is the same word; a number too large for a size is refused; and the "
     "stack the compiled code sees is the interpreter's, word for word and height for height, before and after it is changed.",
     ["inputs"], "all words, slices and stack heights",
     "Tests convert a handful of words.",
     ["crates/revmc-context/src/lib.rs"], [("EvmWord and EvmStack", "crates/revmc-context/src/lib.rs")], ["converted words", "stacks"])
prop("N01", "Native code means what the compiler emitted",
     "The machine code produced for a program, whether compiled in memory or ahead of time into an object file, computes exactly what the compiler's intermediate form says, at every optimisation level.",
     ["programs", "configurations"], "all programs, optimisation levels and target machines",
     "Tests compile a few hundred programs on one machine.",
     ["crates/revmc-llvm/src/lib.rs", "crates/revmc-llvm/src/orc.rs", "crates/revmc-context/src/arch"], [("LLVM backend", "crates/revmc-llvm/src/lib.rs")], ["results of native code"])
prop("N02", "Out-of-process compilation equals in-process compilation",
     "A program compiled by the helper process is the one the runtime would have compiled itself; a helper that crashes, hangs or is killed fails its jobs and is replaced, and never affects the results of others.",
     ["fault_sequences", "schedules"], "all crash points and hangs of the helper; all interleavings of jobs, pauses and restarts",
     "Tests start one helper and let it succeed.",
     ["crates/revmc-runtime/src/runtime/out_of_process.rs"], [("helper process and its protocol", "crates/revmc-runtime/src/runtime/out_of_process.rs")], ["results of compilations with the helper configured"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
