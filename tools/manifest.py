#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness has."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(sys.argv[1].split(","))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T = {
 "C01": "fuzzing with generated texts, paths and documents; access-count and panic monitor",
 "C02": "enumerated and generated texts against an independent lexer and Earley recogniser",
 "C12": "enumerated and generated keys; round trip against the documents they address",
 "C14": "metamorphic: generated pairs of spellings, also against a reference evaluator",
 "C15": "generated searches with hostile callbacks; invariant over delivered locations",
 "C16": "differential over document model implementations with a contract monitor",
 "C17": "stateful model-based histories, sequential and concurrent under the race detector",
 "C18": "stateful model-based construction programs against a reference evaluator",
 "C19": "stateful model-based testing against immutable lists",
 "C20": "generated Go values against the model's answers",
 "C22": "metamorphic: prefix and remainder composition on generated paths",
 "C23": "differential: the three entry points on generated texts and documents",
}
N = {
 "C02": "Trusts the re-stated grammar; texts with more than nine nested openings are not tried (ANTLR is exponential in them).",
 "C01": "Trusts the access bounds; texts with more than nine nested openings are not tried (ANTLR is exponential in them).",
 "C17": "Concurrent histories explore the schedules that happen to occur, with the race detector watching every one.",
}
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "technique": T.get(i, "property-based testing against a reference evaluator, with exhaustive enumeration of small cases"),
        "level": "exploration",
        "level_note": "Held on every case generated; says nothing about the rest. " + N.get(i, "Trusts the reference model in harness/refmodel.go and the generators."),
    })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": [{"property": p["id"], "reason": "check not written yet"} for p in props if p["id"] not in have],
 "notes": "One Go harness (harness/) is built against /repo by every check. Replay a violation with: harness binary 'replay -file replays/X.json'.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
