"""Runs the yamlint driver over /repo's current source and collects rule verdicts."""
import fcntl, hashlib, json, os, resource, shutil, subprocess, sys, time
import trace as tr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
T0 = time.time()


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = sh(["rustc", "+nightly", "--print", "sysroot"])
        if r.returncode:
            raise Broken("no nightly rustc: " + r.stdout)
        _sysroot = r.stdout.strip().splitlines()[-1]
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_driver():
    src = os.path.join(VERIF, "engine")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        if f.endswith(".rs"):
            h.update(open(os.path.join(src, f), "rb").read())
    h.update(sysroot().encode())
    exe = os.path.join(BUILD, "yamlint")
    stamp = exe + ".sha"
    with Lock("driver.lock"):
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return exe
        r = sh(["rustc", "+nightly", "-O", "--edition", "2021", os.path.join(src, "main.rs"), "-o", exe])
        if r.returncode:
            raise Broken("driver does not build:\n" + r.stdout[-3000:])
        open(stamp, "w").write(h.hexdigest())
    return exe


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def analyse(*groups, check=None):
    """each group: dict(entries=[globs], opaque=[globs], max_paths=n, structure=bool).
    Returns one Result per group."""
    exe = build_driver()
    tag = f"{os.getpid()}-{len(os.listdir(BUILD))}"
    work = os.path.join(BUILD, "run-" + tag)
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, "config")
    outs = []
    with open(cfg, "w") as f:
        for i, g in enumerate(groups):
            out = os.path.join(work, f"out{i}.json")
            outs.append(out)
            for e in g.get("entries", []):
                f.write(f"entry\t{e}\n")
            for e in g.get("opaque", []):
                f.write(f"opaque\t{e}\n")
            f.write(f"max_paths\t{g.get('max_paths', 20000)}\n")
            if g.get("structure"):
                f.write("structure\t1\n")
            f.write(f"out\t{out}\nend\t\n")
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    target = os.path.join(BUILD, "target")
    env.update(CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true", RUSTC_ICE="0",
               RUSTFLAGS="-Zalways-encode-mir", RUSTC_WORKSPACE_WRAPPER=exe, YAMLINT_CONFIG=cfg,
               RUST_MIN_STACK=str(1 << 30), LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"))
    if os.environ.get("VERIF_VERBOSE"):
        env["YAMLINT_VERBOSE"] = os.environ["VERIF_VERBOSE"]
    try:
        with Lock("target.lock"):
            clean = dict(env)
            clean.pop("RUSTC_WORKSPACE_WRAPPER")
            if os.path.isdir(target):
                sh(["cargo", "+nightly", "clean", "-p", "serde_yaml", "--offline"], cwd=REPO, env=clean)
            r = sh(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=REPO, env=env, preexec_fn=limits)
        res = []
        for i, o in enumerate(outs):
            if not os.path.exists(o):
                raise Broken(f"the analysis of {REPO} wrote no result (exit {r.returncode}):\n" + r.stdout[-4000:])
            d, es = tr.load(o)
            CUT.extend(f"{e.module}|{e.name}" for e in es if e.error or e.cut)
            res.append(Result(d, es))
        if r.returncode:
            raise Broken(f"{REPO} does not compile:\n" + r.stdout[-4000:])
        return res[0] if len(res) == 1 else res
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


CUT = []    # functions the interpreter could not finish in this run


class Result:
    def __init__(self, doc, entries):
        self.doc, self.entries = doc, entries
        self.fns = doc["fns"]
        self.structure = doc.get("structure")

    def find(self, name, module=None, trait=None):
        """entries whose name is `name` (exact, or a predicate)"""
        out = []
        for e in self.entries:
            if (name(e.name) if callable(name) else e.name == name) and (module is None or e.module == module or (module.endswith("*") and e.module.startswith(module[:-1]))) and (trait is None or e.trait == trait):
                out.append(e)
        return out

    def one(self, name, module=None):
        r = self.find(name, module)
        return r[0] if len(r) == 1 else None

    def exists(self, name, module=None):
        return [f for f in self.fns if f[0] == name and (module is None or f[3] == module)]


class Budget:
    """seconds one part of a rule may take"""

    def __init__(self, secs):
        self.end = time.time() + secs

    def over(self):
        return time.time() > self.end


class Check:
    def __init__(self, pid, what, assumptions=()):
        self.pid, self.what = pid, what
        self.assumptions = list(assumptions)
        self.viol, self.undec, self.ok = [], [], 0
        self.entries, self.npaths = {}, 0
        self.counts, self.samples = {}, []
        self.known = self.read_known()
        self.info = {}
        self.timed = False
        self.deep = False

    def read_known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                if l.startswith("finding: ") and f"property={self.pid} " in l:
                    out[l.split("key=", 1)[1].split(" ", 1)[0].strip()] = l.strip()
        return out

    # ---- bookkeeping
    def use(self, e):
        k = f"{e.module}|{e.name}@{e.span}"
        if k not in self.entries:
            self.entries[k] = len(e.paths)
            self.npaths += len(e.paths)
        return e

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def obl(self, ok, key, msg="", where=""):
        """one obligation: True holds, False violated, None undecided"""
        if ok is None:
            self.undec.append(f"{key}: {msg}" if msg else key)
        elif ok:
            self.ok += 1
        else:
            self.violation(key, msg, where)
        return ok

    def violation(self, key, msg, where=""):
        key = key.replace(" ", "_")
        if not any(v[0] == key for v in self.viol):
            self.viol.append((key, msg, where))

    def undecided(self, key, msg=""):
        self.timed = self.timed or msg == "time"
        self.undec.append(f"{key}: {msg}" if msg else key)

    def floor(self, name, n, least):
        self.counts[name] = n
        cut = [c for c in CUT if " as PartialOrd" not in c]
        if n < least and (cut or self.timed):
            self.undecided(f"floor:{name}", f"only {n} of {least}, but {cut[0] if cut else 'some of it'} could not be analysed")
        elif n < least and len(self.undec) >= least - n:
            self.undecided(f"floor:{name}", f"only {n} of {least}; the rest is among the undecided")
        elif n < least:
            self.violation(f"floor:{name}", f"only {n} instances of '{name}' were found (at least {least} expected): the analysed construct is gone or the rule matches nothing")

    def need(self, res, name, module=None):
        """the unique entry with this name; a missing public anchor is a violation"""
        r = res.find(name, module)
        if len(r) != 1:
            self.violation(f"anchor:{module or ''}|{name}", f"expected exactly one function {name} in {module or 'the crate'}, found {len(r)}")
            return None
        e = r[0]
        if e.error or e.cut:
            self.undecided(f"{e.name}", "analysis cut: " + str(e.error or "path limit"))
            return None
        return self.use(e)

    # ---- end
    def finish(self):
        tier = "thorough" if self.deep else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        new = [v for v in self.viol if v[0] not in self.known]
        old = [v for v in self.viol if v[0] in self.known]
        cov = {
            "explanation": self.what + " Decided by path-partitioned abstract interpretation of the MIR rustc builds from /repo's current source (no execution, no solver); the counts below are measured on this run.",
            "functions_analysed": len(self.entries),
            "abstract_paths": self.npaths,
            "obligations_decided": self.ok + len(self.viol),
            "obligations_undecided": len(self.undec),
            "undecided": sorted(set(self.undec))[:60],
            "instances": self.counts,
            "samples": self.samples or [f"{k}: {n} paths" for k, n in list(self.entries.items())[:8]],
            "functions": sorted(self.entries)[:400],
        }
        cov.update(self.info)
        ev = {"property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w"), indent=1)
        print(f"{self.pid}: {len(self.entries)} functions, {self.npaths} abstract paths, {self.ok} obligations hold, {len(self.undec)} undecided, {len(self.viol)} violated, {time.time() - T0:.1f} s")
        for k, m, w in old:
            print(f"KNOWN-FINDING: property={self.pid} {k}: {m}")
        if new:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.violation.txt")
            with open(rp, "w") as f:
                for k, m, w in new:
                    f.write(f"rule instance: {k}\n  {m}\n  at: {w}\n\n")
            for k, m, w in new[:20]:
                print(f"  {k}: {m}" + (f"  [{w}]" if w else ""))
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0
