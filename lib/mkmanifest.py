"""Write MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    r = registry.CHECKS.get(i)
    if r:
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=r.get("technique", "TLA+ specification; TLC validates traces recorded from the real code"),
            level="model_checking",
            level_note=r.get("note", "Every recorded call of the real code (exhaustive over small inputs, seeded random beyond, C++11 and C++17) is decided by TLC against the TLA+ definition; the specification's own laws are model-checked on small constants. Inputs not generated are not observed; g++, TLC and the JSON reader are trusted.")))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="TLA+ / TLC. No hooks in /repo: the public API already exposes the state. See DESIGN.md."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
