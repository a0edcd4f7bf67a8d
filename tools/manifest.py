#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
SWEEP = "exhaustive enumeration of the f32 bit patterns as the generator, plus property-based generation of tuples, against an f64/std oracle"
T = {
    **{i: SWEEP for i in "C01 C02 C03 C04 C05 C06 C08 C09 C10 C11 C12".split()},
    "C07": "property-based testing of generated pairs against an f64 oracle",
    "C36": "property-based testing of a harness-defined Vector implementation: generated components and iterator histories against the reference of the built-in vectors",
    "C37": "property-based testing of harness-defined component and sample types: generated operands against the ring's own formulas, and differentially against the converted f32",
    "C20": "stateful property-based testing: generated programs of public operations, run twice and in threads, with overflow checks on",
    "C34": "differential property-based testing across builds: generated operands, hashes compared over feature subsets and profiles",
    "C41": "metamorphic property-based testing: enumerated and generated pairs of arguments, order and distance of their results",
    "C35": "property-based testing with a decoder of the captured defmt frames as oracle",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": T.get(i, "property-based testing: structured generators, shrinking on the choice sequence, explicit oracle (reference model, algebraic identity or round trip)"),
        "level": "exploration",
        "level_note": "Search over generated inputs, complete only where the evidence says exhaustive; trusts the platform's f64 arithmetic and libm, rustc, and the oracle in harness/.",
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed through the public API. ./check.sh replay <file> runs the case of a replay file."}
open(f"{here}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
