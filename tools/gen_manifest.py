#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the rule modules present, and tools/na.json."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib"); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
NA = json.load(open(HERE + "/tools/na.json"))
checks, na = [], []
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(f"{HERE}/rules/{i.lower()}.py"):
        m = importlib.import_module("rules." + i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --deep", "evidence_file": f"evidence/{i}.json",
                       "technique": getattr(m, "TECHNIQUE", "path-partitioned abstract interpretation of rustc MIR; decision tables over input classes"),
                       "level": "other", "level_note": m.WHAT + " Trusts: " + "; ".join(getattr(m, "ASSUMES", [])) + ("; the yamlint MIR engine and rustc's MIR" if i != "C19" else "") + ". Obligations whose abstract evaluation is not definite are listed as undecided in the evidence, not claimed."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built for this property yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the MIR that rustc builds from /repo's current tree; nothing of serde_yaml is executed. See DESIGN.md."}, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed:", " ".join(x["property"] for x in na))
