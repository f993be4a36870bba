import concurrent.futures, glob, json, os, shutil, subprocess
import run

TECHNIQUE = "compile-fail witnesses with compiling twins (rustc type and borrow checker)"
WHAT = ("Witness programs are type-checked against the crate as it is now (rustc, no execution).  Each violating program must be rejected with the expected error, while its twin, which differs only in the offending step, must compile; programs that state an automatic trait or an ownership fact must compile.")
ASSUMES = ["rustc's type and borrow checker are sound; unsafe code in the crate is judged by the signatures it is wrapped in"]
NAMES = {"E0460", "E0463", "E0786", "E0425", "E0432", "E0433", "E0412", "E0599", "E0405", "E0407", "E0437", "E0583"}


def program(path):
    p = {"id": os.path.basename(path)[:-3], "path": path, "compiles": False, "codes": set(), "text": None, "also": set(), "what": ""}
    for line in open(path):
        if not line.startswith("//@ "):
            break
        k, _, v = line[4:].strip().partition(": ")
        if k == "compiles":
            p["compiles"] = True
        elif k == "codes":
            p["codes"] = set(v.split())
        elif k == "also":
            p["also"] = set(v.split())
        else:
            p[k] = v
    return p


def library(work):
    """the crate and serde as metadata, for rustc --extern"""
    os.makedirs(os.path.join(work, "src"), exist_ok=True)
    open(os.path.join(work, "src/lib.rs"), "w").write("")
    open(os.path.join(work, "Cargo.toml"), "w").write(f'[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nserde_yaml = {{ path = "{run.REPO}" }}\nserde = "1"\n')
    lock = os.path.join(run.REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(work, "Cargo.lock"))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, "target"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTFLAGS"):
        env.pop(k, None)
    env["RUSTFLAGS"] = "--cap-lints=allow"
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = {}
    for line in r.stdout.splitlines():
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rmeta"):
                    out[m["target"]["name"].replace("-", "_")] = f
    if r.returncode or "serde_yaml" not in out or "serde" not in out:
        raise run.Broken(f"{run.REPO} does not compile:\n" + r.stderr[-3000:])
    return out, env


def compile(p, bad, lib, env, work):
    """the errors rustc reports: [(code or None, message)]"""
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "--error-format=json", "-Awarnings", "-o", os.path.join(work, f"{p['id']}-{int(bad)}.rmeta"), p["path"],
           "--extern", "serde_yaml=" + lib["serde_yaml"], "--extern", "serde=" + lib["serde"], *[x for d in sorted({os.path.dirname(f) for f in lib.values()}) for x in ("-L", "dependency=" + d)]] + (["--cfg", "bad"] if bad else [])
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    errs = []
    for line in r.stderr.splitlines():
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("level") == "error" and not m["message"].startswith("aborting due"):
            errs.append(((m.get("code") or {}).get("code"), m["message"]))
    if r.returncode and not errs:
        errs.append((None, "rustc failed: " + r.stderr[-300:]))
    return errs


def check(ck):
    ps = [program(f) for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness", "*.rs")))]
    work = os.path.join(run.BUILD, f"witness-{os.getpid()}")
    try:
        lib, env = library(work)
        jobs = [(p, b) for p in ps for b in ((False,) if p["compiles"] else (False, True))]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = dict(zip([(p["id"], b) for p, b in jobs], ex.map(lambda j: compile(*j, lib, env, work), jobs)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    show = lambda es: "; ".join(f"{c or 'error'}: {m}" for c, m in es[:2])[:300]
    rejected = 0
    for p in ps:
        where = f"witness/{p['id']}.rs"
        good = errs[p["id"], False]
        gone = any(c in NAMES or m.startswith("rustc failed") for c, m in good)
        if p["compiles"]:
            ck.obl(True if not good else None if gone else False, p["id"], f"{p['what']}: no longer so ({show(good)})", where)
            continue
        if good:
            ck.obl(None if gone else False, p["id"] + ":twin", f"the legal twin of '{p['what']}' is rejected ({show(good)})", where)
            continue
        bad = errs[p["id"], True]
        if not bad:
            ck.violation(p["id"], f"accepted by the compiler: {p['what']}", where)
            continue
        hit = any((p["codes"] == {"any"} or c in p["codes"]) and (p["text"] is None or any(x in m for x in p["text"].split("|"))) for c, m in bad)
        rejected += hit
        if hit:
            ck.obl(True, p["id"])
            if rejected % 4 == 1:
                ck.sample(f"{p['what']}: rejected ({show(bad)[:120]})")
        elif p["also"] and all(c in p["also"] for c, _ in bad):
            ck.violation(p["id"], f"only incomplete, not forbidden: {p['what']} ({show(bad)})", where)
        else:
            ck.undecided(p["id"], f"rejected for another reason: {show(bad)}")
    ck.count("programs", len(ps))
    ck.count("compilations", len(errs))
    ck.floor("violating programs rejected", rejected + sum(1 for v in ck.viol), 45)
    ck.floor("programs that state a fact", sum(p["compiles"] for p in ps), 30)
