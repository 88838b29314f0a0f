#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SAN = "runtime monitoring: ASan+UBSan build, guarded argument placement, "
T = {
 "C01": SAN + "allocation and input monitors over the whole API; valgrind memcheck",
 "C02": SAN + "round-trip oracle; every code point exhaustively",
 "C03": SAN + "reference decoder as oracle; byte-class strings enumerated",
 "C04": SAN + "reference segmentation as oracle",
 "C05": SAN + "step history monitor with reference classifier",
 "C06": SAN + "Unicode database oracle, all code points",
 "C07": SAN + "Unicode database oracle, all code points",
 "C08": SAN + "reference model on generated text",
 "C09": SAN + "database oracle, all code points and generated text",
 "C10": SAN + "database oracle, all composable pairs and generated text",
 "C26": "runtime monitoring: ThreadSanitizer stress with digests compared across threads, orders, locales and processes; history monitor",
 "C27": "runtime monitoring: fault injection at every allocation, state-unchanged and leak monitors",
 "C28": "runtime monitoring: step and allocation counters with budgets proportional to input size",
 "C29": "runtime monitoring: generators run on random databases, all lookups observed against the database",
 "C31": "runtime monitoring: differential execution, the same calls in eight builds (compilers, optimisation, char signedness, uninitialised locals, debug mode), result tables compared",
 "C32": "runtime monitoring: ASan+UBSan build; history monitors inside callbacks and checked iterators, exceptions injected at every call of them, leak monitor; reference model as oracle",
 "C30": "runtime monitoring: texts up to more than 2^32 bytes (one block of memory mapped repeatedly) with results known from their composition; ASan+UBSan for the shorter ones",
}
NOTE = {
 "C01": "Held on the executions explored: all public functions on generated, hostile and coverage-evolved arguments placed against guard pages and red zones; trusts ASan, UBSan and memcheck. Says nothing about inputs not executed.",
 "C06": "All of 0..10FFFF and samples to 2^32-1 executed against the Unicode 16 file in /verif/data, which is trusted.",
 "C07": "All of 0..10FFFF and samples to 2^32-1 executed against the Unicode 16 file in /verif/data, which is trusted.",
 "C26": "Held on the schedules, histories and locales executed; ThreadSanitizer also flags racy accesses that did not collide. Locales other than C are emulated by facets and interposed ctype functions.",
 "C27": "Every allocation of each executed call failed in turn (first and last ones of long calls); held for the calls executed.",
 "C28": "Held on the executed inputs up to some hundred kilobytes: steps are basic blocks plus bulk bytes, counted by instrumentation, so no wall clock decides.",
 "C30": "Held for the text shapes and sizes executed: every size class from 2^8 to 2^24 for all jobs, beyond 2^32 bytes in the quick check for functions that only read (thorough: all). Trusts the arithmetic of the composition and the reference model on the short pieces.",
 "C31": "Held for the arguments executed and the builds listed in the evidence; x86-64 and libstdc++ only (no other platform is installed). A mistake common to all builds is for the other properties to find.",
 "C32": "Held for the executed callbacks: stateless, counting, history-dependent and throwing ones of eight kinds of callable, checked iterators over four byte types, five value types in single-pass ranges.",
 "C29": "Held for the random databases generated (see evidence) and the shipped one; each table entry is looked up exhaustively.",
}
DEF = "Held on the executions explored: generated, hostile and coverage-evolved inputs plus enumerated small ones, each judged by an independent reference model; trusts that model and the sanitizers."
ids = ["C%02d" % i for i in range(1, 33)]
m = {"version": 1,
     "setup_cmd": "python3 -B tools/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 -B run_check.py " + i, "thorough_cmd": "python3 -B run_check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": T.get(i, SAN + "reference model as oracle over generated and evolved inputs"), "level": "exploration", "level_note": NOTE.get(i, DEF)} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: all observation is by sanitizer and coverage instrumentation, allocator replacement, wrapped memory functions and argument placement in /verif's own build of /repo's sources. /repo's own commits are fixes only; see DESIGN.md and known_findings.json."}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
