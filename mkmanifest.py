#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist in harness/src/bin."""
import json, os
TECH = {
 "C01": "property-based testing (proptest): random satisfied equations, keys and randomness on four pairing engines",
 "C02": "property-based testing: forgery search with a model solver, trapdoor extraction oracle, exhaustive proof enumeration in tiny groups",
 "C03": "property-based differential testing of the verifier against an exponent-level reference model",
 "C04": "property-based testing with trapdoor extraction as oracle",
 "C05": "property-based testing with exhaustive enumeration of the randomness in tiny groups, freshness monitors on large groups",
 "C06": "property-based testing with exhaustive enumeration of the randomness in tiny groups (exact distributions), freshness monitors on large groups",
 "C07": "property-based testing: trapdoor simulator as oracle, exact distributions in tiny groups",
 "C08": "stateful (model-based) property-based testing of call histories",
 "C09": "property-based testing: metamorphic equality of API routes under one randomness stream",
 "C10": "property-based testing: trapdoor recovery from the recorded randomness stream, model comparison, statistics over tiny groups",
 "C11": "property-based testing: structured shape/type mutation of proofs and inputs",
 "C12": "property-based testing against an exponent-level reference model",
 "C13": "property-based testing against an exponent-level reference model",
 "C14": "property-based testing: differential against naive matrix algebra, parallel against sequential",
 "C15": "property-based testing: differential over pool sizes, concurrent schedules, histories and processes",
 "C16": "property-based testing: round-trip and independent reference encoder",
 "C17": "structured fuzzing of encodings with a validity oracle",
 "C18": "property-based testing: metamorphic relations over proofs",
}
checks = []
for k in sorted(TECH):
    if not os.path.exists(f"/verif/harness/src/bin/{k.lower()}.rs"):
        continue
    checks.append({
        "property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
        "evidence_file": f"evidence/{k}.json", "technique": TECH[k], "level": "exploration",
        "level_note": "generated-input search with an explicit oracle; see evidence file for counts, classes and samples, DESIGN.md for bounds",
    })
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": []},
          open("/verif/MANIFEST.json", "w"), indent=1)
