#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables of check.py."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
import check
NA = {"C25": "Parsing a configuration string is a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide.",
      "C26": "Type-generic/C++ dispatch is resolved by the compiler: no run-time nondeterminism for a simulator to decide."}
NOTE = {
 "C06": "oracle: linearizability search (Wing & Gong) over the recorded calls of each variable",
 "C21": "up to 3 application threads per PE, preempted inside OSHMPI at instrumented edges, plus the library's own progress thread",
 "C22": "liveness is judged after faults stop: no completed call within 200000 scheduler steps, or everybody blocked with nothing in flight",
 "C23": "long histories of one job: wraparound and exhaustion of tags, caches, communicators and windows",
 "C24": "the same program runs under seven builds and many run-time settings; the final states of all symmetric memory must agree",
}
checks = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in NA: continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, MPI-level delays/reorderings and faults of the real library on a simulated MPI, with reference-model oracles",
        "level": "exploration",
        "level_note": ("Seeded random exploration of small jobs (1-12 PEs), no exhaustiveness; every violation is replayed exactly from its file. " + NOTE.get(i, "") + " Trusts the simulated MPI library to allow what the MPI standard allows and nothing more.").replace("  ", " ")})
json.dump({"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the seam is the MPI interface, pthreads and the libc calls, all replaced at link time. /repo carries only fix: commits, listed in known-findings.txt."}, open(H + "/MANIFEST.json", "w"), indent=1)
