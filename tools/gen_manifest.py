#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.join(os.path.dirname(__file__), "..")
BFS = {"M02", "M05", "M08", "M28", "M29", "M34"}
NATIVE = ("Bounded, exhaustive: every input of the enumerated space is executed on the real code, compiled from /repo, and compared after every "
          "step with an abstract tree model written independently. 8- and 16-bit types: complete spaces where DESIGN.md says so; wider and dynamic types: "
          "complete enumeration of stated structured families at every depth. Trusts rustc, the harness model (mc/src/model.rs) and the bounds.")
NOTES = {
    "M24": "Bounded: every operation of the library for an enumerated set of inputs at every depth class, executed by the Miri interpreter, which stops at any undefined behaviour (out-of-bounds, uninitialised, misaligned, invalid values; thorough: also Tree Borrows). Trusts Miri; inputs outside the enumerated set are not covered.",
    "M25": "Bounded: the same enumerated executions on x86_64 (native) and, interpreted by Miri, on s390x (big-endian, 64 bit) and i686 (32 bit), thorough also powerpc (big-endian, 32 bit); every observation must agree. Trusts Miri's targets; the native results are judged by the other checks.",
    "M26": "Bounded: the same enumerated executions in three build profiles (unoptimised with checks, optimised with checks, optimised without checks); every observation, including panics, must agree. Trusts rustc; the results themselves are judged by the other checks.",
    "M39": "Bounded: two threads, one operation each, on the same or two closely related indices; all schedules in which the second one runs to its end at any one machine instruction of the first (a breakpoint at each), and one in which it runs again after each instruction. Sequentially consistent executions of this machine's code only. Trusts rustc, the scheduler (mc/src/sched.rs) and the processor's debug traps.",
    "M03": NATIVE + " Run in two profiles (with and without overflow checks and debug assertions).",
}
TECH = {
    "M39": "stateless model checking of the compiled code under a controlled scheduler: all schedules of two threads with one preemption at machine instruction granularity",
    "M24": "exhaustive bounded exploration of API executions under an undefined-behaviour detecting interpreter (Miri)",
    "M25": "exhaustive bounded exploration, cross-platform conformance of every execution (Miri big-endian / 32-bit against native)",
    "M26": "exhaustive bounded exploration, cross-profile conformance of every execution",
}
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(line)["id"]
    t = TECH.get(i) or ("explicit-state model checking of operation histories on the real code in lock step with an abstract tree model" if i in BFS
                        else "exhaustive bounded enumeration of states and operations on the real code in lock step with an abstract model")
    checks.append(dict(property=i, quick_cmd=f"bin/check {i} --tier quick", thorough_cmd=f"bin/check {i} --tier thorough",
                       technique=t, level="model_checking", level_note=NOTES.get(i, NATIVE)))
m = dict(version=1, setup_cmd="bin/check --setup", checks=checks, not_applicable=[],
         notes="No hooks: everything is observed through the public API. bin/check Mxx --replay FILE re-executes the recorded counterexample.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
