#!/usr/bin/env python3
"""mut.py FILE.json [ids...]: apply each textual mutation to a scratch copy of /repo and run the named checks on it.
FILE.json: [{"id","file","old","new","n"(occurrence, default 0),"checks":[...],"expect": 0|1}]"""
import json, os, shutil, subprocess, sys
S = os.environ.get("MUTREPO", "/tmp/mutrepo")
muts = json.load(open(sys.argv[1]))
want = set(sys.argv[2:])
if not os.path.isdir(S):
    subprocess.run(["cp", "-a", "/repo", S], check=True)
subprocess.run(["rsync", "-a", "--delete", "/repo/src/", S + "/src/"]) if shutil.which("rsync") else None
env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD=S + "-build")
os.makedirs(S + "-build", exist_ok=True)
for m in muts:
    if want and m["id"] not in want:
        continue
    shutil.rmtree(S + "/src"); shutil.copytree("/repo/src", S + "/src")
    ok = True
    for ed in m.get("edits", [m]):
        p = os.path.join(S, ed["file"]); s = open(p).read()
        parts = s.split(ed["old"])
        if len(parts) < 2: print(m["id"], "PATTERN NOT FOUND:", ed["old"][:60]); ok = False; break
        if ed.get("all"): s = ed["new"].join(parts)
        else:
            n = ed.get("n", 0); s = ed["old"].join(parts[:n + 1]) + ed["new"] + ed["old"].join(parts[n + 1:])
        open(p, "w").write(s)
    if not ok: continue
    for c in m["checks"]:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exp = m.get("expect", 1)
        st = "ok  " if r.returncode == exp else "MISS" if exp == 1 and r.returncode == 0 else "FALSE-ALARM" if exp == 0 and r.returncode == 1 else "ERROR"
        lines = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        print(st, m["id"], c, (lines[0][:170] if lines else ""))
        if st == "ERROR": print(r.stdout[-1500:])
