"""The properties: one source for properties.jsonl and MANIFEST.json (python3 tool/props.py writes both)."""
import json, os

X = "crates/tinywasm/src/interpreter/executor.rs"
VS = "crates/tinywasm/src/interpreter/stack/value_stack.rs"
OPT = "crates/parser/src/optimize.rs"
VIS = "crates/parser/src/visit.rs"
FLOW = "trace-partitioned abstract interpretation of MIR (interprocedural value flow)"

PROPS = [
 dict(id="P01", title="Scalar numeric instructions compute the WebAssembly result",
  statement="For every scalar integer, float, comparison and conversion operator and for every operand value, running validated code "
   "pushes exactly the result the WebAssembly specification defines, or stops with exactly the trap it defines (division by zero, integer overflow, invalid conversion). "
   "This holds for the instruction sequence the parser emits for the operator, not only for a function implementing it.",
  over=["inputs", "programs"], text="all operand values of all 144 scalar operators, wherever they occur in a module",
  why="the spec tests sample a few hundred operand tuples per operator out of up to 2^128; corner operands and the wiring of each operator to its implementation are only sampled",
  files=[VIS, X, "crates/tinywasm/src/interpreter/num_helpers.rs", "crates/tinywasm/src/interpreter/values.rs"],
  mech=[("operator visitors emit instructions", VIS), ("per-instruction execution", X)],
  technique=FLOW + ": per-operator summaries of lowering composed with summaries of the executor, compared with reference terms",
  level="proof", note="every operator's composed value-flow term equals the reference term; float library calls (sqrt, ceil, ...) are trusted primitives"),
 dict(id="P03", title="Optimization never changes what a program computes",
  statement="Whatever instruction sequence the parser's peephole optimizer replaces, the replacement, started from the same machine state, leaves the same operand values, locals, globals and memory, "
   "performs the same memory accesses, raises the same trap and continues at the same instruction. Running a module with rewriting enabled is therefore indistinguishable from running it with rewriting disabled.",
  over=["programs", "inputs"], text="every rewrite the optimizer can perform, for every immediate that enables it and every machine state",
  why="tests run few programs; whether a fused instruction is wrong depends on immediates, local aliasing, operand order and memory kinds that the sampled programs do not contain",
  files=[OPT, "crates/parser/src/macros.rs", X],
  mech=[("one iteration of the rewriting loop", OPT), ("per-instruction execution", X)],
  technique=FLOW + ": the rewriter's loop body is summarised as rewrites (with side conditions), and both sides of each are run through the executor's summaries and compared",
  level="proof", note="all rewrites of one arbitrary loop iteration; assumes validated code (typed operand stack) and that a jump target is a block boundary (P04)"),
 dict(id="P06", title="Loads and stores access exactly the addressed bytes of their memory",
  statement="Every load and store operator accesses the memory it names at its static offset plus its address operand, computed without wrap-around, with exactly the width of the operator, "
   "and pushes (or writes) the little-endian value, sign- or zero-extended or truncated as the operator says. An access that leaves the memory stops with the out-of-bounds trap and has no effect. "
   "This holds for 32-bit and 64-bit memories and for fuel-limited and unlimited execution.",
  over=["inputs", "programs"], text="all scalar and v128 load/store operators, all static offsets, addresses and values, all memory indices, both address types",
  why="tests use a few addresses near the ends of small memories; wrap-around, memory selection with several memories and 64-bit addresses are hardly sampled",
  files=[X, VIS, "crates/tinywasm/src/store/memory/mod.rs"],
  mech=[("operator visitors emit instructions", VIS), ("exec_load/exec_store", X)],
  technique=FLOW + ": per-operator summaries of lowering composed with executor summaries; the backend access is matched against the operator's definition",
  level="proof", note="the behaviour of the backends themselves is P36; v128 lane, extend and splat loads are not covered"),
 dict(id="P36", title="Every memory backend behaves as one zero-initialised byte array",
  statement="For the contiguous, the paged and the lazily created memory backend alike: an access succeeds exactly when its whole range lies inside the current length (computed without wrap-around), "
   "touches only the bytes of that range, reads what was last written there (zero if nothing was), never panics because of the requested range, and leaves the memory unchanged when the range does not fit. "
   "Overlapping copies behave as if through a temporary; growing keeps the contents and appends zeroes.",
  over=["inputs", "histories"], text="all addresses, lengths, chunk sizes and buffers, for every access method of the built-in backends",
  why="unit tests use tiny memories and a few offsets; chunk-boundary, absent-chunk, overlap and end-of-address-space combinations are not enumerated",
  files=["crates/tinywasm/src/store/memory/vec.rs", "crates/tinywasm/src/store/memory/paged.rs", "crates/tinywasm/src/store/memory/lazy.rs", "crates/tinywasm/src/store/memory/mod.rs"],
  mech=[("range check", "crates/tinywasm/src/store/memory/paged.rs"), ("lazy materialization", "crates/tinywasm/src/store/memory/lazy.rs")],
  technique=FLOW + " with a linear-inequality domain: range, contents and growth of every backend method",
  level="other", note="chunk loops are unrolled one to three iterations; range rules are exact for the first chunk, contents follow by repetition of the loop body"),
 dict(id="P07", title="Bulk memory operators work on exactly the ranges and memories they name",
  statement="memory.fill, memory.copy and memory.init affect exactly the destination range given by their operands in the memory they name (32-bit or 64-bit, with operands of its address type), "
   "with the fill byte, the bytes of the source range (as if copied through a temporary when source and destination are the same memory) or the bytes of the data segment. "
   "If any range leaves its memory or segment they trap as out of bounds and change nothing. data.drop empties only its segment, and memory.size reports the memory's pages.",
  over=["inputs", "programs"], text="all operand values, memory and segment indices, both address types, aliasing of imported memories, dropped segments",
  why="the ranges span the whole address space and depend on aliasing and earlier drops; tests sample small ranges in one memory",
  files=[X, "crates/tinywasm/src/store/memory/mod.rs", VIS],
  mech=[("bulk memory operators", X), ("operator visitors emit instructions", VIS)],
  technique=FLOW + " with a linear-inequality domain: operands, ranges and backend calls of every trace",
  level="proof", note="backends are P36; copies between two memories are checked for up to three pieces"),
 dict(id="P41", title="Table operators read and write exactly the elements they name",
  statement="table.get, table.set, table.size, table.fill, table.copy, table.init and elem.drop work on the table and segment they name, with operands of the table's index type. "
   "They return or change exactly the addressed elements (copies within one table behave as if through a temporary), keep the table's size, and trap with an out-of-bounds table access, changing nothing, exactly when a range leaves its table or segment.",
  over=["inputs", "programs"], text="all operand values, table and segment indices, both index types, aliasing of imported tables, dropped segments",
  why="index arithmetic at the ends of the index space, overlapping copies, aliased imports and dropped segments combine in more ways than tests sample",
  files=[X, "crates/tinywasm/src/store/table.rs", VIS],
  mech=[("table operators", X), ("table storage", "crates/tinywasm/src/store/table.rs")],
  technique=FLOW + " with a linear-inequality domain: operands, ranges and the element-wise effect of every trace",
  level="proof", note="loops over elements, should there be any, are unrolled up to three iterations"),
 dict(id="P08", title="Growing a memory or table respects its limits and is all or nothing",
  statement="memory.grow and table.grow succeed only while the new size stays within the declared maximum (or the implementation's limit), then add exactly the requested pages or elements "
   "(zero bytes, or the given reference), keep the existing contents, and return the previous size. Otherwise they return -1 and change nothing; they refuse only when the limit is exceeded or the host cannot allocate. "
   "No growth request and no valid initial size panics the host.",
  over=["inputs", "histories"], text="all deltas, current sizes, declared maxima, page sizes, both address types, allocation failure",
  why="limits lie at the ends of the integer ranges and allocation failure cannot be provoked by tests",
  files=[X, "crates/tinywasm/src/store/memory/instance.rs", "crates/tinywasm/src/store/table.rs", "crates/types/src/lib.rs"],
  mech=[("memory.grow", "crates/tinywasm/src/store/memory/instance.rs"), ("table.grow", "crates/tinywasm/src/store/table.rs")],
  technique=FLOW + " with a linear-inequality domain: limits, effects and results of every growing trace",
  level="proof", note="page sizes 1 and 65536 (the valid ones); 32-bit deltas of 2^31 pages or more are treated as exceeding every limit"),
    {"id": "P11", "title": "Invocations begin clean, run exclusively, and always release the store",
     "statement": "For every way of calling into a store (Function::call, Function::call_resumable, FuncExecution::resume_with_fuel, FuncExecution::resume_with_time_budget, FuncContext::call_untyped): outside a host function nothing runs and nothing changes while another invocation of that store is active, and inside one (FuncContext) nothing runs unless one is; the store is marked active while code or a host function runs, and the mark is cleared on every way out, success or error; a top-level call runs on emptied call and value stacks over exactly the given arguments, from the first instruction of the function the handle names, and returns the results by that function's type; a resumable execution continues at the frame where it was suspended, hands out its results once, and after completing or trapping is never continued; a nested call leaves the frames and operands of its caller alone and, when it fails, removes all of its own.",
     "over": "schedules", "text": "every history of calls, resumptions, nested calls and failures on one store, over all arguments",
     "why": "A mark left set or operands left behind after one particular failing path shows only in the next invocation of the same store; the sequences of failing, suspended and nested calls are unbounded.",
     "files": ["crates/tinywasm/src/func.rs", "crates/tinywasm/src/store/mod.rs", "crates/tinywasm/src/interpreter/stack/value_stack.rs", "crates/tinywasm/src/interpreter/stack/call_stack.rs"],
     "mech": [("Function::call", "crates/tinywasm/src/func.rs"), ("FuncExecution::resume", "crates/tinywasm/src/func.rs"), ("FuncContext::call_untyped", "crates/tinywasm/src/func.rs"), ("Store::enter_execution", "crates/tinywasm/src/store/mod.rs")],
     "technique": "path-sensitive typestate analysis of the invocation entry points over MIR (interprocedural value flow with Herbrand terms), with a call-site census of the interpreter",
     "level": "proof", "note": "every path of the five entry points; host functions are assumed not to unwind; the interpreter itself is covered by P13, P40 and P12"},
    {"id": "P13", "title": "Calls reach the function the semantics names, or trap",
     "statement": "call and return_call run the module's function with the given index. call_indirect and return_call_indirect read the element of the module's named table at the operand: an index outside the table and a null element trap, as does a function whose type differs from the instruction's; the checks precede every effect of the call. A call into another module's function continues with that function's code and its own module instance; a host function is called through its own closure. Returning continues the caller's code and module instance.",
     "over": "inputs", "text": "every call, call_indirect, return_call and return_call_indirect, for every index, table content, type and callee",
     "why": "Calls across instances, through imported tables, into functions of the same structural type or out of range need specific module graphs; tests build only a few.",
     "files": ["crates/tinywasm/src/interpreter/executor.rs", "crates/tinywasm/src/store/table.rs", "crates/tinywasm/src/instance.rs"],
     "mech": [("Executor::exec_call", "crates/tinywasm/src/interpreter/executor.rs"), ("Executor::exec_call_indirect", "crates/tinywasm/src/interpreter/executor.rs"), ("Executor::exec_return_call_indirect", "crates/tinywasm/src/interpreter/executor.rs")],
     "technique": "interprocedural value-flow analysis of the call instructions over MIR, outcome by outcome",
     "level": "proof", "note": "every path of the call instructions; index translation at parse time and instantiation are other properties"},
    {"id": "P40", "title": "Calls lay out a function's frame as declared, and returns undo it",
     "statement": "Entering a function of a module, by call, call_indirect, their return_ variants or the internal self-call forms, leaves in each operand stack what was below the arguments, then the arguments in order as the first locals, then zero for every further declared local, and the new frame's local base is the position of its first local in every stack; execution starts at the first instruction. An ordinary call saves the caller's frame exactly once with its position after the call, a tail call saves none and drops the frame of the function it leaves. Returning drops the whole frame and keeps the results in order, and continues the caller exactly after its call, or ends the invocation at the frame where it was started.",
     "over": "inputs", "text": "every call and return, for all numbers and types of parameters, locals and results",
     "why": "Locals that keep an old value, results in the wrong order or a frame base off by one in one of three stacks need particular mixes of types and call shapes.",
     "files": ["crates/tinywasm/src/interpreter/executor.rs", "crates/tinywasm/src/interpreter/stack/value_stack.rs", "crates/tinywasm/src/interpreter/stack/call_stack.rs"],
     "mech": [("ValueStack::enter_locals", "crates/tinywasm/src/interpreter/stack/value_stack.rs"), ("Executor::exec_return", "crates/tinywasm/src/interpreter/executor.rs"), ("CallFrame::new", "crates/tinywasm/src/interpreter/stack/call_stack.rs")],
     "technique": "interprocedural value-flow analysis of the call and return instructions over MIR with sequence-valued operand stacks",
     "level": "proof", "note": "every path of the instructions; the counts of parameters, locals and results are taken as the parser recorded them"},
 dict(id="P14", title="Linking binds exactly the items the module asks for",
  statement="Instantiating a module binds each of its imports, in order, to the item defined for it or else exported under its name by the module linked under its module name. "
   "An import is accepted exactly when that item belongs to the same store, has the import's kind, and its type satisfies the import: an equal function type; equal value type and mutability of a global; "
   "for a table and a memory equal address and element types and page size, a current size of at least the declared minimum, and a declared maximum no larger than the import's if the import has one. "
   "Anything else ends with a linking error, never with a panic, and never with an item of another store.",
  over=["inputs", "programs"], text="every import of every module against every set of definitions and linked modules",
  why="link errors depend on pairs of types, current sizes after growth and the store of every item; tests hold a few pairs and hardly any item of another store",
  files=["crates/tinywasm/src/imports.rs"],
  mech=[("Imports::link", "crates/tinywasm/src/imports.rs"), ("compare_types, compare_table_types, compare_memory_types", "crates/tinywasm/src/imports.rs")],
  technique=FLOW + ": one arbitrary iteration of the linking loop; the conditions of every accepting path and every refusing path are compared with the specification's",
  level="proof", note="ExternName, the map of linked modules and Imports::take_defined are taken at their word; the lookup of an export in an instance is P15"),
 dict(id="P15", title="A handle works on its own item of its own store, and on no other",
  statement="Functions, memories, tables, globals and module instances are used from the host through handles. A handle given to any public operation together with a store other than the one it was made for is refused with an error: "
   "nothing of that store is read or changed, and nothing panics. With its own store it works on exactly the item it was made for. Handles are made only for items of the store they carry the identity of: a new memory, table, global or host function for the item just added, "
   "an export for the item its instance has under that kind and index, a function handle with that function's type; an export is found under exactly its name. Every store has an identity of its own for its whole life.",
  over=["inputs", "histories"], text="every public operation taking a handle and a store, every handle the interface hands out, for all stores, instances and names",
  why="tests hardly ever mix stores; with two stores alive an unchecked address silently reads or overwrites an unrelated item",
  files=["crates/tinywasm/src/reference.rs", "crates/tinywasm/src/instance.rs", "crates/tinywasm/src/func.rs", "crates/tinywasm/src/store/mod.rs"],
  mech=[("StoreItem::validate_store", "crates/tinywasm/src/reference.rs"), ("ModuleInstance::export_addr", "crates/tinywasm/src/instance.rs"), ("Store::new", "crates/tinywasm/src/store/mod.rs")],
  technique=FLOW + " over every public function found by its signature; store-identity typestate and provenance of the addresses in handles",
  level="proof", note="all paths of all public functions with a handle and a store; generic functions through one instantiation; instances made by instantiation carry addresses of their own store (P17)"),
 dict(id="P27", title="Values crossing the host boundary have the declared types, in the declared order",
  statement="A call from the host (plain, resumable, or nested from a host function) does nothing and fails unless it gets exactly as many arguments as the function has parameters, each of the declared type; the results a host function given as a closure over values returns are likewise refused unless they are "
   "exactly the declared ones. Arguments reach the function, and results the caller, in order and bit for bit. So it is when a running function calls a host function: it gets the operands as values of its declared types, in order, and the calling module; what it returns is pushed, and its error is the trap. Typed functions are handed out only for exactly the requested parameter and result types, and convert field by field, in order, without loss; a typed host function is registered with exactly its types. "
   "A global takes only values of its type, and only when mutable once made; a table takes only references of its element type; reading either gives the stored bits as the declared type, and a refused value changes nothing.",
  over=["inputs"], text="all values, types and lengths at the host's calls, globals and tables; typed functions for scalars, tuples and chains",
  why="tests use a few signatures; an unchecked or misordered value is reinterpreted silently, since the operand stacks are untyped",
  files=["crates/tinywasm/src/func.rs", "crates/tinywasm/src/reference.rs", "crates/tinywasm/src/instance.rs", "crates/tinywasm/src/interpreter/stack/value_stack.rs", "crates/types/src/value.rs"],
  mech=[("validate_call_params", "crates/tinywasm/src/func.rs"), ("collect_call_results", "crates/tinywasm/src/func.rs"), ("ModuleInstance::validate_typed_func", "crates/tinywasm/src/instance.rs"), ("Global::set", "crates/tinywasm/src/reference.rs")],
  technique=FLOW + "; every accepting path implies the type equalities, loops by one generic iteration; instances of the generic conversions over concrete tuples and chains",
  level="proof", note="all paths; the generic conversions for the tuple and chain shapes of tool/stub (up to six fields, all seven scalar types but v128 in tuples)"),
 dict(id="P12", title="A budget decides only when execution pauses, and fuel is charged exactly",
  statement="Running with a fuel or time budget executes the same instructions with the same effects as running without one: the budget only decides after which of them execution pauses. One unit of fuel is charged for each instruction, in chunks of 128, whatever the instruction is; the weighted policy charges every form of call "
   "(call, call to the function itself, indirect, and their tail forms) the same extra amount on top, never below zero, and the per-instruction policy nothing extra. With no fuel nothing executes. Execution pauses exactly when the fuel is used up at the end of a chunk, or the time is, and hands back the frame it stopped in; "
   "completion and traps are reported as they are without a budget. No fuel is left over after an invocation ends, and a host function's charges are subtracted from what remains, never below zero.",
  over=["inputs", "histories"], text="all instructions, all budgets, all ways an invocation ends, both policies",
  why="tests sample a few budgets; an uncharged call form or a stale frame shows only when the pause falls on it",
  files=["crates/tinywasm/src/interpreter/executor.rs", "crates/tinywasm/src/interpreter/mod.rs", "crates/tinywasm/src/func.rs"],
  mech=[("Executor::run_with_fuel", "crates/tinywasm/src/interpreter/executor.rs"), ("Executor::run_with_time_budget", "crates/tinywasm/src/interpreter/executor.rs"), ("FuncContext::charge_fuel", "crates/tinywasm/src/func.rs")],
  technique=FLOW + "; per-instruction summaries with and without a budget compared, and one generic iteration of each budgeted runner",
  level="proof", note="every instruction of the executor; the runners' loops by one generic iteration"),
 dict(id="P17", title="Instantiation builds the instance the module describes, in order",
  statement="Instantiating a module adds exactly one item to the store per function, table, memory, global, element and data segment it declares, in that order within each kind, owned by the new instance, whose index spaces are the imports followed by these. Globals and segment items hold what their constant expressions denote (decoded and evaluated as WebAssembly "
   "defines). Element segments are handled before data segments, each kind in order: passive ones are kept, declared ones dropped, active ones copied to the evaluated offset of the table or memory they name and then dropped; the first that is out of bounds stops all further copying and is the trap returned, with the instance kept. "
   "Instantiation that fails otherwise adds no instance. The start function, and only it, runs once after all else, and its outcome is the result.",
  over=["inputs", "histories"], text="all modules, import lists and store contents",
  why="tests instantiate a few modules in fresh stores; a wrong base address or owner shows only with earlier instances or a trapping segment",
  files=["crates/tinywasm/src/instance.rs", "crates/tinywasm/src/store/mod.rs", "crates/parser/src/conversion.rs"],
  mech=[("ModuleInstance::instantiate", "crates/tinywasm/src/instance.rs"), ("Store::init_elements", "crates/tinywasm/src/store/mod.rs"), ("Store::init_data", "crates/tinywasm/src/store/mod.rs"), ("Store::eval_const", "crates/tinywasm/src/store/mod.rs")],
  technique=FLOW + "; each list of items by one generic iteration, the constant-expression evaluator by one generic step per operator",
  level="proof", note="all paths of instantiation; loops by one generic iteration"),
 dict(id="P10", title="The stacks stay within their configured limits, and refusing is a trap",
  statement="No value stack and no call stack ever holds more than its configured maximum; one that is not dynamic never grows, and one that is grows only by a reservation that can fail. Room is refused only when there is none within the maximum (or it cannot be allocated), the refusal changes nothing and is the ValueStackOverflow or CallStackOverflow trap, "
   "and every instruction or host call that finds no room ends with that trap. A store's 32, 64 and 128 bit stacks and its call stack start empty with their own configuration; each setter sets what it names, and an initial size above the maximum is refused. Neither running nor parsing a module recurses on the host's stack.",
  over=["inputs", "histories"], text="all configurations, all instructions, all host calls",
  why="tests overflow one stack of one size; a limit that is off by one or taken from another class needs its own configuration to show",
  files=["crates/tinywasm/src/interpreter/stack/value_stack.rs", "crates/tinywasm/src/interpreter/stack/call_stack.rs", "crates/tinywasm/src/engine.rs", "crates/tinywasm/src/interpreter/executor.rs"],
  mech=[("StackBase", "crates/tinywasm/src/interpreter/stack/value_stack.rs"), ("CallStack::push", "crates/tinywasm/src/interpreter/stack/call_stack.rs"), ("StackConfig", "crates/tinywasm/src/engine.rs")],
  technique=FLOW + "; the limit an inductive invariant of every operation on the stacks; reachability in the call graph for recursion",
  level="proof", note="every function of the stacks, every instruction of the executor"),
    dict(id="P02", title="Lowering keeps the structure and types of WebAssembly code",
         statement="For every operator of every valid function body, the parser's function builder pops and pushes on its model of the operand stack exactly what the operator's type says (address operands with the width of the memory or table named, locals, globals and calls with their declared types, dead code polymorphically), and emits the internal instruction of that operator and of those operand sizes with the operator's own immediates. Control is kept: a block starts from its parameters and ends with exactly its results, whichever way it is left; every branch, conditional branch and branch table entry goes to the start of the loop or the end of the block its depth names (or returns), with the stack shaped to exactly the operands that label takes; else is entered exactly when the condition is zero; and code is taken for dead exactly when no path reaches it.",
         over=["inputs"], text="all operators, all operand types, all nestings of blocks, all branch depths",
         why="tests compile a few nestings; an operand left behind, a jump to the wrong end or code wrongly taken for dead needs a particular nesting of blocks, types and dead code",
         files=["crates/parser/src/visit.rs", "crates/parser/src/macros.rs", "crates/parser/src/conversion.rs"],
         mech=[("FunctionBuilder", "crates/parser/src/visit.rs"), ("ControlFrame", "crates/parser/src/visit.rs"), ("ValueCounts", "crates/parser/src/visit.rs"), ("lowering_ops", "crates/parser/src/macros.rs")],
         technique=FLOW + "; one arbitrary state of the builder per visitor, its helpers abstracted to stack operations that are themselves checked; loops by one arbitrary iteration; results compared with the operator signatures of the specification",
         level="proof", note="every visitor method of the function builder and its stack and jump helpers; the executor's side is P01, P03, P06, P07, P13, P40 and P41"),
]

NA = [
 ("P90", "SIMD lane arithmetic", "Lane-wise arithmetic of the vector operators equals the WebAssembly definition for all inputs.",
  "deciding it needs bit-precise reasoning over 16-byte vectors implemented with per-lane loops and intrinsics (shuffles, saturating and rounding arithmetic); no static argument in reach bounds these values without a solver, and a sampled comparison would be a test",
  ["inputs"], ["crates/tinywasm/src/interpreter/simd/instructions.rs"]),
]


def quant(p):
    return {"over": p["over"], "text": p["text"]}


def prop_line(p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if "state" in p:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": quant(p),
            "why_tests_cant": p["why"], "anchors": a}


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    rules = os.path.join(verif, "tool", "rules")
    lines, checks, na = [], [], []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        lines.append(prop_line(p))
        if os.path.exists(os.path.join(rules, p["id"].lower() + ".py")) and "na" not in p:
            cmd = "python3 tool/check.py %s" % p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier=thorough",
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p.get("na", "no check for it yet")})
    for i, t, s, why, over, files in NA:
        lines.append({"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": s}, "why_tests_cant": "tests sample inputs",
                      "anchors": {"files": files, "mechanism": [{"name": t, "where": files[0]}]}})
        na.append({"property": i, "reason": why})
    with open(os.path.join(verif, "properties.jsonl"), "w") as f:
        for l in lines:
            f.write(json.dumps(l) + "\n")
    m = {"version": 1,
         "setup_cmd": "cd driver && CARGO_TARGET_DIR=target LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib cargo +nightly build --offline -q",
         "checks": checks, "not_applicable": na,
         "notes": "Every check compiles /repo's working tree with a rustc driver (driver/) that writes MIR facts, and decides its rules over them (tool/). See DESIGN.md."}
    with open(os.path.join(verif, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not applicable")


if __name__ == "__main__":
    main()
