#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import jobs as J  # noqa: E402

TECH = {
    "c": "explicit-state model checking of the real cluster (bounded-depth, deviation-bounded enumeration of events, state hashing)",
    "u": "exhaustive enumeration of bounded operation/input sequences of the real component against a reference model",
    "s": "the same exhaustive enumeration in a build with address and undefined-behaviour sanitizers as monitors",
    "t": "stateless exploration of all thread interleavings of the real code under a controlled scheduler, with happens-before race detection and a linearizability check",
}
NOTE_C = ("Every history of each listed configuration up to the depth and deviation budget printed in the evidence "
          "is executed on the library itself (several nodes, simulated network and disks); monitors are evaluated after every step. "
          "Trusts the harness's reference bookkeeping; says nothing beyond the stated nodes, depth and budget.")
NOTE_U = ("Every operation sequence / input of the stated alphabet and length is executed on the library itself and compared with an "
          "independent reference model written from the property. Trusts that model; says nothing beyond the stated bounds.")
NOTE_S = ("The sanitizer build explores the same sequences; any report ends the run as a violation with its replay.")
NOTE_T = ("Every interleaving at lock granularity of the listed thread programs is executed on the library itself; unsynchronised accesses are "
          "found by a vector-clock race detector over the same executions. Sequentially consistent memory is assumed for race-free code.")


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in J.JOBS:
            na.append(dict(property=i, reason=J.NOT_APPLICABLE.get(i, "no check yet")))
            continue
        kinds = []
        for k in "cust":
            if any(j.startswith(k + ":") for j in (J.JOBS[i] + " " + J.THOROUGH_JOBS.get(i, "")).split()):
                kinds.append(k)
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py " + i,
            thorough_cmd="python3 check.py %s --thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="; ".join(TECH[k] for k in kinds),
            level="model_checking",
            level_note=" ".join({"c": NOTE_C, "u": NOTE_U, "t": NOTE_T, "s": NOTE_S}[k] for k in kinds)))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the checks link the library's own sources, unmodified. The thorough commands explore the same configurations deeper.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
