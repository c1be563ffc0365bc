#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/jobs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import jobs as J
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
TECH = {
 "C08": "exhaustive enumeration of all pairs of reachable layouts and small-alphabet contents against std::equal / lexicographic_compare on the sequences",
 "C10": "explicit-state exploration of the real container with exhaustive fault injection (every throw point of every transition), resulting states explored further",
 "C11": "explicit-state exploration of the real container with exhaustive fault injection (every throw point of every transition), state compared before/after",
 "C14": "explicit-state exploration of the debug build; in every state every held iterator is put to every use, and every broken precondition is tried",
 "C15": "explicit-state exploration of the debug build against the model and against the release build (observation sets compared); exhaustive iterator life-cycle histories on exact memory states",
 "C20": "stateless model checking of the instrumented code under a controlled scheduler: all interleavings up to a preemption bound; independence of operations (no conflicting access) checked for every operation in every layout; bounded buffers under all schedules with race and deadlock detection",
 "C23": "the same exhaustive exploration in every build configuration, complete observation logs compared; sanitizer builds",
}
DEF = "explicit-state model checking of the real container: breadth-first exploration of all reachable layouts x the operation alphabet to a fixpoint, every transition executed on the implementation in lockstep with a reference model and monitors"
NOTE = "Exhaustive within the stated bounds (all reachable layouts up to the capacity bound times all operations and arguments; boundary geometries at larger capacities); every explored transition runs the code built from /repo. Assumes data independence of values and trusts the reference model, recording allocator and element types in mc/."
checks = []
for p in props:
    i = p["id"]
    if i not in J.PLAN: continue
    checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, evidence_file="evidence/%s.json" % i, technique=TECH.get(i, DEF), level="model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 run.py --list > /dev/null", checks=checks,
         not_applicable=[dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in J.PLAN],
         notes="No hooks are needed in /repo: the harness uses only the public interface. 'fix:' commits and findings are listed in known_findings.txt. run.py builds every configuration from /repo/include in a scratch directory it removes.")
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(m["not_applicable"]), "not claimed")
