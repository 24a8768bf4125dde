#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbv import props
here = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TLA = "TLA+ specification checked with TLC; "
GRAPH = TLA + "graph specification (CallGraph/Observe) judges every recorded run of the real binary"
HOW = {
 "C01": (TLA + "StackMax enumerates graphs, each replayed into the binary; MaxSpec judges the runs", "model_checking"),
 "C02": (TLA + "StackMax enumerates graphs, each replayed into the binary; MaxSpec judges the runs", "model_checking"),
 "C03": (TLA + "StackMax enumerates graphs, each replayed into the binary; MaxSpec judges the runs", "model_checking"),
 "C04": (TLA + "Pair compares the full and the started run of one program", "model_checking"),
 "C06": (TLA + "Thumb branch semantics; ThumbStream enumerates functions and offsets, replayed into the binary", "model_checking"),
 "C08": (TLA + "Thumb stack semantics; every adjustment and random streams replayed into the binary", "model_checking"),
 "C23": (TLA + "ThumbStream enumerates functions and code/data layouts, replayed into the binary", "model_checking"),
 "C11": (TLA + "IrText enumerates call lines of the LLVM grammar, each replayed into the binary", "model_checking"),
 "C12": (TLA + "IrTypes enumerates types and pairs of signatures, each replayed into the binary", "model_checking"),
 "C14": (TLA + "Wrapper enumerates argument lists and outcomes; TraceWrapper judges the recorded executions", "model_checking"),
 "C15": (TLA + "Wrapper enumerates argument lists and outcomes; TraceWrapper judges the recorded executions", "model_checking"),
 "C16": (TLA + "Builds enumerates build histories, replayed on disk; TraceDriver judges the recorded runs", "model_checking"),
 "C17": (TLA + "Driver enumerates fault combinations, replayed; TraceDriver judges the recorded runs", "fault_enumeration"),
 "C24": (TLA + "TraceDriver judges the recorded cargo invocations", "model_checking"),
 "C18": (TLA + "Dot parses the printed text as a state machine", "model_checking"),
 "C20": (TLA + "Pair relates the two output formats of one program", "model_checking"),
 "C25": (TLA + "Notices derives what each run must say from the program; TraceGraph compares", "model_checking"),
 "C21": (TLA + "Pair relates the runs of reordered forms of one program", "model_checking"),
}
NOTE = ("The real binary, rebuilt from /repo, is run on synthesized artifacts (ELF, LLVM IR text, archives) behind a stand-in cargo and rustc; every recorded run is a trace "
        "that the TLA+ specification must allow. Exhaustive within the bounds named in the evidence file, sampled with VERIF_SEED beyond them. Trusted: TLC, the synthesizer of "
        "artifacts (it renders abstract programs; its machine code was cross-checked with llvm-mc) and the parser of the printed graph; corrupted records are fed to TLC on each run and must be refused.")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in props.CHECKS:
        t, l = HOW.get(p["id"], (GRAPH, "model_checking"))
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                            "technique": t, "level": l, "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "its check is still being built"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
