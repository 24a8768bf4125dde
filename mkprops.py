#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


M = "src/main.rs"
p("C01", "Worst-case stack of non-recursive functions is the longest call path",
  "For every function of a call graph without recursion, the reported maximum is its local stack usage plus the largest "
  "maximum among the functions it can call (0 if it calls none), i.e. the most expensive call path below it. Equality must "
  "hold for every shape of graph (diamonds, shared callees, disconnected parts, parallel calls) and every stack size.",
  ["programs", "inputs"], "every acyclic call graph and every assignment of known/unknown local stack sizes to its nodes",
  "The suite checks one `max = ` prefix in one cyclic firmware example; no test compares any maximum with a value.",
  [M], [("reverse topological accumulation; max_of/Max + Local arithmetic", M + ": run(), Max, Local")],
  ["`max = N`/`max >= N` and `local = ` in the node labels, and the edges, of the DOT output"],
  [("max", "bound assigned to each node", M + ": struct Node")])
p("C02", "Recursion is detected as clusters and bounded soundly",
  "Every set of mutually recursive functions (including a function calling itself), and nothing else, is shown as one cluster. "
  "All its members get the same maximum: the largest local usage in the cluster plus the largest maximum among functions "
  "called from it that are outside it; that is shown as exact only if no member uses stack and those outside maxima are exact, and as a lower bound otherwise.",
  ["programs", "inputs"], "every directed call graph containing cycles, nested or disjoint cycles and self loops, with every assignment of local sizes",
  "One cyclic example (three zero-stack functions) is run and only the text `max = ` is looked for.",
  [M], [("Kosaraju SCCs processed in reverse topological order", M + ": run(), cycles"), ("cluster output", M + ": dot()")],
  ["`subgraph cluster_*` blocks and node labels of the DOT output"])
p("C03", "An exact maximum is never claimed over unknown stack usage",
  "A maximum is shown as exact (`max = N`) only if every function reachable in the graph, including itself, has known local "
  "usage and every reachable recursive function uses no stack; otherwise it is shown as a lower bound (`max >= N`) that counts the known part. "
  "No ordering of callees, size of numbers or kind of unknown (missing data, undefined symbol, untyped code) may turn a lower bound into an exact claim.",
  ["programs", "inputs"], "every graph, every placement of unknown nodes relative to known, recursive and fictitious nodes",
  "No test contains an unknown node and checks how the bound above it is shown.",
  [M], [("LowerBound absorbs in Add and max", M + ": impl Add for Max, max()")], ["DOT node labels"])
p("C04", "A start point keeps exactly what is reachable from it",
  "When a start point names a function of the program (by symbol name, any alias of it, or its path without the hash), the output is exactly the part of the full graph "
  "reachable from that function, with unchanged edges, local sizes and maxima. When the name matches no function, or a hash-less path matches several, "
  "the graph is not filtered (and the tool says so) rather than silently being cut at some other function.",
  ["programs", "inputs"], "every graph, every start node, every way to spell it, plus names that match nothing, several functions, or only a prefix",
  "No existing test passes a start point.",
  [M], [("start lookup and DFS copy", M + ": run(), 'filter the call graph'")], ["nodes/edges of DOT with vs. without the start argument"])
p("C05", "Direct calls in the IR are exactly the direct edges of the graph",
  "For a function that is present in the final program, every direct call to another function in its LLVM IR appears as exactly one edge to that function's node, "
  "however often and in whatever form it is called, and calls from functions discarded by the linker add nothing. "
  "A callee that is an undefined (dynamically provided) symbol gets a node with unknown usage; a callee that is neither present nor undefined makes the tool fail, never drop the call.",
  ["programs", "inputs"], "every set of IR definitions (application and compiler_builtins), symbol tables and call statements",
  "Ten firmware programs are run and a handful of single edges are looked up by name.",
  [M, "src/ir/define.rs"], [("Stmt::DirectCall handling, callees_seen, aliases", M + ": run(), 'add edges'")], ["edges of the DOT output"])
p("C06", "On Cortex-M every BL / B call in machine code becomes an edge to its target",
  "On thumbv6m/v7m/v7em targets, every branch-with-link, and every direct branch leaving its function (conditional or not, 16- or 32-bit encodings), "
  "found in the code of a function yields one edge to the function at the branch's architectural target address; branches inside the function yield none. "
  "This holds for every legal offset, forwards and backwards, for functions in any section, and no edge is invented.",
  ["programs", "inputs"], "every encoding (BL T1, B T1-T4) and every offset reachable by it, every placement of caller and callee",
  "Unit tests decode two BL and one B encoding; the firmware examples contain only small offsets.",
  [M, "src/thumb.rs"], [("BL/B immediate decoding", "src/thumb.rs: analyze"), ("offset to symbol", M + ": run(), machine code pass")], ["edges of the DOT output"])
p("C07", "Indirect calls may reach every function of matching signature, and only those",
  "Every call through a function pointer or vtable adds one fictitious (dashed, zero local usage) node labelled with the signature followed by `*`, called by all functions making such calls and calling "
  "every function of the program, defined or declared, whose LLVM signature matches, whether or not its address is visibly taken (with typed pointers, the pseudo receiver type `fmt::Void` of formatting calls stands for every receiver). "
  "No function of a different signature is a candidate, and no node exists for signatures never called.",
  ["programs", "inputs"], "every multiset of signatures of present functions and of indirect call sites, in any order",
  "Three firmware examples check two candidates each for one signature per program.",
  [M, "src/ir.rs", "src/ir/ty.rs"], [("indirects map; loosely_equal", M + ": run(), Stmt::IndirectCall")], ["dashed nodes and their edges in the DOT output"])
p("C08", "On Cortex-M local stack usage agrees with the machine code",
  "On thumbv6m/v7m/v7em, a function without compiler stack data but straight-line code gets as exact local usage the sum of its stack pointer decrements (0 if it never moves SP), and unknown usage when it moves SP and contains branches. "
  "Functions containing inline asm, and outlined functions recorded as 0, take the machine-code figure over the compiler's when they differ. "
  "For any other function a contradiction between compiler data and machine code makes the tool fail instead of printing a number.",
  ["programs", "inputs"], "every sequence of PUSH/STMDB/SUB SP/VPUSH/STR pre-index forms and amounts, with or without branches, compiler data, inline asm",
  "Six single instructions are unit-tested; the reconciliation rules run only on whatever ten examples contain.",
  [M, "src/thumb.rs"], [("modifies_sp / stack accounting", "src/thumb.rs: analyze"), ("reconciliation with LLVM data", M + ": run()")], ["`local = ` in the DOT output, exit status"])
p("C09", "Stack sizes are attributed to the right function from the right place",
  "A function's local usage is the one recorded by the compiler for one of its symbol names in the application's object file, or else in any object member of the compiler_builtins archive (other members are ignored); a function recorded in neither is unknown (`?`). "
  "When both record the same name, the application's record, i.e. the code that was linked, is used. Sizes of any magnitude are reported unchanged.",
  ["programs", "inputs"], "every assignment of names to records over both sources, number of archive members, 32/64-bit objects, sizes up to 2^40",
  "No test checks a single local size value.",
  [M], [("stack_sizes map, archive walk", M + ": run()")], ["`local = ` in the DOT output"])
p("C10", "One node per address: aliases and merged functions are one function",
  "All symbol names sharing an address (global, local or untyped assembler aliases) denote one node, labelled by one of them, preferring a name the compiler recorded a stack size for. "
  "Calls to, types of, and calls made under any of those names belong to that node, and mapping symbols are never names.",
  ["programs", "inputs"], "every partition of names into addresses, symbol order, symbol kinds, and which name each record, definition, declaration and call uses",
  "No test has an alias whose node is examined.",
  [M], [("aliases / canonical name selection", M + ": run(), 'add all real nodes'")], ["number, labels and edges of nodes in the DOT output"])
p("C11", "No call written in the IR is ever silently ignored",
  "For every `call`/`invoke` instruction that LLVM can print inside a function, whatever its tail marker, flags, attributes, calling convention, types, arguments, operand bundles or metadata, "
  "the tool either accounts for it (an edge to the named function, or to the matching signature node) or exits with an error. It never finishes successfully with the call missing, "
  "and text in comments, labels, strings or other instructions never creates calls.",
  ["inputs", "programs"], "every call line produced by the LLVM 17 grammar for call/invoke over a bounded vocabulary, in every surrounding",
  "Unit tests parse a few dozen literal lines.",
  ["src/ir/define.rs", "src/ir.rs", "src/ir/item.rs"], [("statement parsers", "src/ir/define.rs: stmt, direct_call, indirect_call, other")], ["edges of the DOT output, exit status"])
p("C12", "LLVM types are read, compared and shown faithfully",
  "Two signatures match iff they have the same number of parameters, and each parameter and the return type are the same LLVM type, where an opaque pointer also equals any typed pointer; parameter and return attributes play no role. "
  "The label of an indirect call node is the signature of the candidate in LLVM syntax, for every type LLVM can print (integers of any width, arrays, vectors, packed and plain structs, named types, function types, pointers to any of them, variadics).",
  ["inputs"], "all pairs of signatures over the type grammar up to a depth",
  "A few literal types are unit-tested; matching of different types is never tested.",
  ["src/ir.rs", "src/ir/ty.rs", "src/ir/item.rs"], [("type parser, Display, loosely_equal", "src/ir/ty.rs")], ["labels and edges of dashed nodes in the DOT output"])
p("C13", "Memory and compiler intrinsics resolve to the library routines they call",
  "On targets whose machine code is not analyzed, a use of the LLVM memcpy, memmove or memset intrinsic adds edges to every routine, present in the program or dynamically provided (undefined), that it can lower to: `memcpy`, `memmove`, and `memset`/`memclr`, each also in its `__aeabi_` forms (without suffix, `4` and `8`). "
  "Intrinsics known to emit no call add nothing, and an intrinsic the tool does not know makes it fail rather than being dropped; on Cortex-M intrinsics add nothing by themselves.",
  ["programs", "inputs"], "every intrinsic name/type suffix, every subset of the routines present, under their own name or as an alias",
  "No test looks at intrinsic edges; one only checks that `llvm.abs` does not crash.",
  [M], [("llvm.* handling", M + ": run(), Stmt::DirectCall")], ["edges of the DOT output, exit status"])
p("C14", "The rustc wrapper is transparent",
  "Run as the compiler wrapper, the tool starts the given compiler exactly once with `-Zemit-stack-sizes` (plus `--emit=llvm-ir` when, and only when, the crate is compiler_builtins) followed by every original argument unchanged and in order, in the same environment with stdin, stdout and stderr passed through. "
  "It exits with the compiler's exit status; a compiler that cannot be started or was killed yields failure, never success.",
  ["inputs", "fault_sequences"], "every argument list cargo can construct (including values that look like flags, empty values, repeated and joined forms) and every compiler outcome",
  "Only exercised implicitly by successful builds.",
  ["src/wrapper.rs"], [("wrapper()", "src/wrapper.rs")], ["argv/env seen by a stand-in compiler, exit status, stdout, stderr"])
p("C15", "The wrapper reports exactly where compiler_builtins' artifacts are",
  "The wrapper announces an rlib path iff a compiler_builtins extern with a path is passed (with or without the `noprelude:` modifier), giving exactly that path, and announces an IR path iff the crate being compiled is compiler_builtins, "
  "giving `<out-dir>/compiler_builtins<extra-filename>.ll` from the values the compiler will use. Option values that merely look like these options are not mistaken for them, and a compiler_builtins build whose output directory is unknown is an error.",
  ["inputs"], "every argument list over the option vocabulary: order, joined (-Ckey=v) and split (-C key=v) forms, repeats, look-alike values",
  "Only exercised implicitly by successful builds with one cargo version.",
  ["src/wrapper.rs"], [("RustcArgs::parse", "src/wrapper.rs")], ["marker lines on the wrapper's stderr"])
p("C16", "The analysis is of the requested target's freshest artifacts",
  "The graph is computed from the executable of the requested example or binary and from the most recently produced IR file of exactly that crate (dashes and underscores being the same) together with the object file of the same build, "
  "never from a stale build with another hash, another crate whose name extends the requested one, or the other kind of target. This holds after any history of earlier builds.",
  ["histories", "configurations"], "every history of builds leaving artifacts with various names, hashes, ages and kinds, followed by a request",
  "Tests use fresh directories or a single artifact per target.",
  [M], [("newest .ll selection", M + ": run(), 'load llvm-ir file'")], ["which build's functions, edges and sizes appear in the DOT output"])
p("C17", "Failures are reported as failures, never as a graph",
  "If the toolchain is not the supported one (and not explicitly overridden), the arguments do not name exactly one target, the build fails, compiler_builtins was not announced, or any artifact is missing or unreadable, the tool exits non-zero and prints no graph. "
  "A failing build's exit code is passed on, and everything the build wrote to stderr except the tool's own marker lines is forwarded unchanged and in order.",
  ["fault_sequences", "configurations"], "every combination of environment, argument, build outcome and artifact fault",
  "No test makes anything fail.",
  [M], [("early returns", M + ": run()")], ["exit status, stdout, stderr"])
p("C18", "The DOT output is a well-formed graph naming every node correctly",
  "For every program the output is a valid DOT digraph: node ids are consecutive and unique, every edge and cluster refers to existing nodes, and every label, whatever characters the symbol contains (quotes, backslashes, braces, generics, non-ASCII), reads back as the intended name, maximum and local usage.",
  ["programs", "inputs"], "every symbol name over an alphabet including DOT's special characters, every graph",
  "Labels in the examples contain no special characters and are matched by substring.",
  [M], [("Escaper, dot()", M)], ["stdout"])
p("C19", "Shortened names are readable and never ambiguous",
  "A function is shown by its demangled path without the compiler's hash exactly when it is the only function of the program with that path, and with the hash otherwise; names that carry no such hash are shown whole. "
  "No two functions of the program are ever shown under the same name because a hash was dropped, with or without a start point.",
  ["programs", "inputs"], "every multiset of mangled, unmangled and look-alike names",
  "The examples contain no two functions with the same path.",
  [M], [("ambiguous counter, dehash", M + ": run(), dehash()")], ["labels in the DOT output"])
p("C20", "The `top` format is the same analysis as the graph",
  "For every program, the `top` format lists exactly the functions and fictitious nodes of the graph, each once, under the same names with their local usage (0 when unknown), in non-increasing order of local usage, and its first line is the largest maximum in the graph.",
  ["programs", "inputs"], "every graph; compared with the DOT output of the same program and start point",
  "No test uses the top format.",
  [M], [("top()", M)], ["stdout of --format top vs --format dot"])
p("C21", "The result does not depend on order: of hash maps, symbols, items or statements",
  "Analyzing the same program twice, or after permuting the order of symbols at different addresses, of IR functions, of independent statements and of stack-size records, gives the same graph up to renumbering of nodes.",
  ["schedules", "inputs"], "every iteration order of the internal maps (randomized per process) and every permutation of the inputs' order",
  "Each program is analyzed once, with one iteration order.",
  [M], [("HashMap iteration in run()", M)], ["DOT output of repeated / permuted runs"])
p("C22", "Unknown callees are shown as unknown",
  "If the program contains a function of unknown type (neither defined nor declared in the IR and not compiler-outlined), every indirect call node also calls an unknown `?` function; on Cortex-M a function without IR that branches to a register (other than returning through LR) also calls `?`; "
  "and an indirect call for which no candidate exists calls `?`. In all other cases no `?` appears.",
  ["programs", "inputs"], "every mixture of typed, declared, untyped and outlined functions with indirect calls in IR and machine code",
  "No existing test has untyped symbols and checks the graph.",
  [M, "src/thumb.rs"], [("has_untyped_symbols, '?' nodes", M + ": run()"), ("BX/BLX detection", "src/thumb.rs")], ["`?` nodes and their edges in the DOT output"])
p("C23", "Machine-code decoding never loses step with the instruction stream",
  "On Cortex-M, whatever valid 16- and 32-bit instructions and literal pools (marked by mapping symbols) precede a call or stack adjustment in a function, the decoder neither misses it nor mistakes data, or the second half of an instruction, for one. "
  "Each instruction counts with the length the architecture gives it, and data regions are skipped up to the next code region, wherever they lie.",
  ["inputs", "programs"], "every valid halfword as a preceding instruction (exhaustively), every pair of instruction classes, every placement and size of literal pools",
  "Unit tests decode one instruction at a time.",
  ["src/thumb.rs", M], [("instruction length decision, $d/$t skipping", "src/thumb.rs: analyze")], ["edges and `local = ` in the DOT output"])
p("C24", "The build is requested faithfully and always redone",
  "The tool invokes `cargo rustc --release` once, forwarding exactly the requested target, example or binary and features, selecting the standard-library build for the target's operating system, and asking for IR, object and fat LTO with itself as compiler wrapper. "
  "Before that it makes the crate's own sources newer than any previous build, changing no file's contents, so that artifacts are regenerated.",
  ["configurations", "histories"], "every combination of flags, targets, project layouts and prior file times",
  "Tests use one flag combination and observe only the final graph.",
  [M], [("cargo command construction, touch", M + ": run()")], ["argv/env seen by a stand-in cargo; file times and contents of the project"])

p("C25", "Every assumption the analysis makes is reported, and no other",
  "On its error output the tool says of every function, and of no other, that it contains inline assembly that is assumed not to use stack, that it has no type information, that its stack usage is unknown, "
  "that the stack usage found by reading its machine code replaces the compiler's figure, or that it makes indirect calls that are left out; it names every intrinsic that is assumed to become plain instructions and every signature "
  "called through a pointer that no function has; and it says when indirect calls cannot be bounded because of untyped functions, when no stack information exists at all, and when the requested start point was not found.",
  ["programs", "inputs"], "every program, whatever mix of typed, untyped, measured, unmeasured, assembly-bearing and indirectly calling functions it has, with and without a start point",
  "No test reads the error output; the README only shows two of these warnings for one program.",
  [M, "README.md"], [("warn!/error! call sites", M + ": run()")], ["the warning and error lines on stderr, together with the DOT output of the same run"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
