#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the rule modules, tools/design_notes.py, tools/muts, seeded/ and the last evidence files."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/lib", HERE, HERE + "/tools"]
sys.dont_write_bytecode = True
from design_notes import N
NA = json.load(open(HERE + "/tools/na.json"))
out = [open(HERE + "/tools/design_head.md").read().rstrip(), "", "## Property by property", ""]
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if not os.path.exists(f"{HERE}/rules/{i.lower()}.py"):
        out += ["Not applicable: " + NA[i], ""]
        continue
    m = importlib.import_module("rules." + i.lower())
    why, bound, rem = N[i]
    out += ["*How.* " + m.WHAT.strip(), "", "*Why tests cannot.* " + why, "", "*Bounds.* " + bound, "", "*Trusted.* " + "; ".join(m.ASSUMES) + ".", ""]
    mf = f"{HERE}/tools/muts/{i.lower()}.json"
    if os.path.exists(mf):
        d = json.load(open(mf))
        out += [f"*Mutation batch.* {sum(x.get('expect', 1) == 1 for x in d)} breaking changes, {sum(x.get('expect', 1) == 0 for x in d)} behaviour-preserving ones (`tools/muts/{i.lower()}.json`). " + rem, ""]
    elif rem:
        out += [rem, ""]
    s = [os.path.basename(x) for x in sorted(glob.glob(f"{HERE}/seeded/{i}-*"))]
    if s:
        out += ["*Seeded changes.* " + ", ".join(s) + ".", ""]
    try:
        e = json.load(open(f"{HERE}/evidence/{i}.json"))
        c = e["coverage"]
        out += [f"*Last run.* {json.dumps(c.get('instances', {}))}, {len(c.get('undecided', []))} kinds of undecided obligation.", ""]
    except OSError:
        pass
out += [open(HERE + "/tools/design_tail.md").read().rstrip(), ""]
open(HERE + "/DESIGN.md", "w").write("\n".join(out))
