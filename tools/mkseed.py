#!/usr/bin/env python3
"""mkseed.py [ids...]: turn the specifications in tools/seeds.py into /verif/seeded/<id>/ (patch.diff, demo.sh, main.rs, meta.json),
confirming in a scratch copy that each compiles, passes the existing tests, and is shown by its demonstration."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds
S = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# run in the repository: exit 0 when the property holds on this demonstration
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat >"$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
serde_yaml = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
indexmap = "2"
[workspace]
TOML
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$t/target" CARGO_TERM_COLOR=never
unset RUSTC_WORKSPACE_WRAPPER RUSTC_WRAPPER RUSTFLAGS
(cd "$t" && cargo build --quiet --offline 2>"$t/log") || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
'''
# for a program that must not compile: exit 0 when the borrow checker rejects it
REJ = DEMO.replace('''|| { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
''', '''&& { echo "the program is accepted"; exit 1; }
grep -q 'E0597' "$t/log" || { cat "$t/log"; exit 3; }
''')
assert REJ != DEMO


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(repo):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    log = "/tmp/seed-test.log"
    sh(f"cd {repo} && rm -rf target/debug/.fingerprint/serde_yaml-* && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {log} 2>&1", env=env)
    sh(f"python3 /opt/vp/results.py /tmp/seed-res.json cargo:{log}")
    try:
        r = json.load(open("/tmp/seed-res.json"))
    except Exception:
        return ["no results: " + open(log).read()[-600:]]
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in b if x not in r["passed"]]


def main():
    want = set(sys.argv[1:])
    if not os.path.isdir(S):
        sh(f"cp -a /repo {S}")
    for sd in seeds.ALL:
        if want and sd["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", sd["id"])
        if not want and os.path.exists(d + "/patch.diff"):
            continue
        sh(f"cd {S} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
        ok = True
        for f, old, new in sd["edits"]:
            p = os.path.join(S, f); s = open(p).read()
            if s.count(old) != 1:
                print(sd["id"], "PATTERN occurs", s.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff"], cwd=S, stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(sd["main"])
        open(d + "/demo.sh", "w").write(REJ if sd["rejected"] else DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        clean = sh(f"cd /repo && bash {d}/demo.sh")
        bad = sh(f"cd {S} && bash {d}/demo.sh")
        failed = tests(S)
        env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/mutbuild"); os.makedirs("/tmp/mutbuild", exist_ok=True)
        c = subprocess.run([sys.executable, VERIF + "/check.py", sd["property"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        first = [l for l in c.stdout.splitlines() if l.startswith("  ")][:1]
        good = clean.returncode == 0 and bad.returncode not in (0, 3, 2) and not failed
        print("OK " if good else "BAD", sd["id"], "clean", clean.returncode, "patched", bad.returncode, "failed tests", failed[:3], "check", {0: "MISSED", 1: "caught"}.get(c.returncode, c.returncode), (first or [""])[0][:120])
        if clean.returncode: print(clean.stdout[-800:])
        if bad.returncode in (0, 2, 3): print(bad.stdout[-800:])


main()
