#!/usr/bin/env python3
"""python3 tools/manifest.py: writes MANIFEST.json for the claimed checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: random incremental histories against a truth-table oracle, shrinking",
 "C02": "property-based testing: random histories, cores checked by truth table",
 "C03": "property-based testing: random scope histories against a truth-table and unit-propagation model",
 "C04": "property-based testing: random activation histories against truth-table and linear-algebra models",
 "C05": "property-based testing: diverging histories over copies against exact models, concurrent runs under the race detector",
 "C06": "property-based testing of random control schedules over background solves, exact verdict oracles, race detector",
 "C07": "property-based testing: large structured instances against elimination / counting / reference-solver oracles, metamorphic presentations",
 "C08": "structured and mutation fuzzing against an independent DIMACS reader",
 "C09": "structured and mutation fuzzing against an independent icnf reader",
 "C10": "property-based round trips (write/read) and structured fuzzing of solution files",
 "C11": "property-based testing: random construction programs against a direct Boolean evaluator",
 "C12": "property-based testing: generated circuits, CNF projected against exhaustive evaluation",
 "C13": "property-based testing: cardinality literals against counting",
 "C14": "property-based testing: unrolling against step-by-step simulation",
 "C15": "property-based round trips against an independent AIGER reader and simulator",
 "C16": "structured and mutation fuzzing of AIGER readers with independent parser as oracle",
 "C17": "property-based testing of random client schedules against exact verdicts, race detector",
 "C18": "property-based testing: random client histories against a local model over real sockets, fault injection, race detector",
 "C19": "property-based round trips of the wire codec over generated chunkings and truncations",
 "C20": "property-based testing: conversions and variable maps against a model; wrapped solver against plain solver",
 "C21": "property-based testing: generated problems against combinatorial oracles",
 "C22": "property-based testing of the built command against truth-table and reference-solver oracles",
 "C23": "property-based testing: persistence histories against an in-memory model in scratch directories",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = [l.strip() for l in open(os.path.join(root, "tools/claimed.txt")) if l.strip()]
NA = {}
if os.path.exists(os.path.join(root, "tools/na.json")):
    NA = json.load(open(os.path.join(root, "tools/na.json")))
checks = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "./run.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % i,
          "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
          "level_note": "generated cases, seeded and shrunk; counts, classes and samples of each run are in the evidence file"})
    elif i not in NA:
        NA[i] = "check not built yet"
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed: checks use exported API only", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": i, "reason": NA[i]} for i in sorted(NA) if i not in claimed]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
