import importlib, multiprocessing, os, re, signal, time
import absval, run

RULES = ["c01", "c07", "c08", "c09", "c10", "c15", "c16", "c17", "c20", "c21", "c22", "c23", "c26", "c28", "c29", "c30"]
READS = re.compile(r"^(de|loader|error|path|number|mapping|with|libyaml|libyaml::(parser|tag|cstr|error|util)|value|value::(de|tagged|from|mod|partial_eq|debug))$")
GROUP = dict(entries=["de|*", "loader|*", "libyaml::parser|*", "libyaml::tag|*", "libyaml::cstr|*", "libyaml::error|*", "value::de|*", "value::tagged|*", "number|*", "error|*", "path|*", "mapping|*", "with|*"], opaque=["*Loader::*"], max_paths=3000)
WHAT = ("Every path of the MIR that ends in a panic (failed bounds check, arithmetic overflow, unwrap of None or Err, reached unreachable!, failed assertion) in the functions used by reading is enumerated, and its feasibility is decided on every abstract situation in which the reading rules evaluate those functions: "
        "every region of scalar texts and target types, every document tree and history of the reader, every loader stream, every tag, every error with its position, and every value read as every type.  A panicking path that some such situation certainly takes, or that nothing but unconstrained content of the input keeps it from taking, is a violation.")
ASSUMES = ["counters of events, positions and collection lengths do not overflow usize (they are bounded by the memory holding what they count)", "memory allocation succeeds", "Visitor, Seed and Read implementations of the user do not panic themselves",
           "the panics the documentation announces (Tag::new of an empty name) are not reached by reading, whose tags are never empty", "unsafe-libyaml itself does not panic"]
SECS = 560


class Seen:
    """collects the panicking paths met by evaluations: (place, kind, function) -> verdict -> count"""
    def __init__(self):
        self.n, self.ex = {}, {}

    def append(self, x):
        f, ev, p = x
        k = (ev.e.module, ev.e.name, str(p.span), str(p.val[0]))
        d = self.n.setdefault(k, {})
        d[f] = d.get(f, 0) + 1
        if f in ("yes", "free") and (k, f) not in self.ex:
            self.ex[k, f] = ", ".join(f"{say(ev, t)}={str(v)[:60]}" for t, v in list(ev.env.items())[:5] if not str(v).startswith("fn"))


def say(ev, t):
    try:
        return str(ev.e.path(t)) if hasattr(ev.e, "path") else f"t{t}"
    except Exception:
        return f"t{t}"


def work(job):
    rule, secs = job
    absval.PANICS = seen = Seen()
    err = None

    def late(*_):
        raise TimeoutError

    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(5, int(secs)))
    ck = run.Check(rule.upper(), "")
    t = time.time()
    try:
        importlib.import_module("rules." + rule).check(ck)
    except TimeoutError:
        err = "time"
    except run.Broken as e:
        err = str(e)[-300:]
    signal.alarm(0)
    return rule, err, seen.n, seen.ex, ck.ok + len(ck.viol), time.time() - t, list(run.CUT)


def kind_of(k):
    m = re.match(r"overflow:(\w+)", k)
    if m:
        return "arithmetic overflow in " + m.group(1)
    for s, t in (("bounds", "index out of bounds"), ("unwrap_failed", "unwrap of None or Err"), ("expect_failed", "failed expect"), ("unreachable", "reached unreachable!"), ("assert", "failed assertion"), ("slice", "slice out of range"), ("panic_fmt", "explicit panic or unreachable!")):
        if s in k:
            return t
    return k


def check(ck):
    r = run.analyse(GROUP)
    sites = {}                      # every place that may panic, as enumerated from the MIR
    for e in r.entries:
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut: " + str(e.error or "path limit")[:80])
        ck.use(e)
        for p in e.paths:
            if p.end == "panic":
                sites.setdefault((str(p.span), kind_of(str(p.val[0]))), set()).add(e.name)
    end = time.time() + SECS
    seen, rules = {}, 0
    order = sorted(RULES, key=lambda x: ["c26", "c22", "c30", "c01", "c20", "c23"].index(x) if x in ("c26", "c22", "c30", "c01", "c20", "c23") else 9)
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for rule, err, n, ex, obl, secs, cut in pool.imap_unordered(work, [(x, end - time.time() if i < 8 else SECS / 2) for i, x in enumerate(order)]):
            rules += 1
            run.CUT.extend(cut)
            if err:
                ck.undecided(f"evaluations of {rule.upper()}", "time" if err == "time" else err)
            ck.count("situations evaluated", obl)
            if os.environ.get("VERIF_VERBOSE"):
                print("  ", rule, err, obl, round(secs), "s")
            for k, d in n.items():
                for f, c in d.items():
                    o = seen.setdefault(k, {}).setdefault(f, [0, ex.get((k, f), "")])
                    o[0] += c
    met = {}
    for (mod, name, span, kind), d in sorted(seen.items()):
        if not READS.match(mod):
            continue
        what = kind_of(kind)
        met.setdefault((span, what), {}).setdefault("x", 0)
        for f, (c, ex) in d.items():
            met[span, what][f] = met[span, what].get(f, 0) + c
            if f == "no":
                ck.ok += c
            if f == "yes" and not (mod == "value::tagged" and name == "Tag::new") or f == "free" and "overflow:Add" not in kind:
                ck.violation(f"{mod}|{name}:{what}", f"panics ({what}) on an input for which reading must return a value or an error" + (f": {ex}" if ex else ""), f"{name} {span}")
    for (span, what), fns in sorted(sites.items()):
        d = met.get((span, what))
        if d is None:
            ck.undecided(f"{what} in {sorted(fns)[0]}", f"{span}: no situation evaluated reaches it")
        elif d.get("maybe") and not what.endswith("Add"):
            ck.undecided(f"{what} in {sorted(fns)[0]}", f"{span}: {d['maybe']} situations in which the abstraction cannot exclude it")
    ck.floor("reading rules evaluated", rules, len(RULES))
    ck.floor("functions with a reading role enumerated", len(r.entries), 150)
    ck.floor("places that may panic", len(sites), 20)
    ck.floor("places met by an evaluation", sum(1 for s in sites if s in met), 12)
    ck.info["panic_places"] = [f"{s} {w}: {sorted(fns)[0]} ({', '.join(f'{f} {c}' for f, c in sorted(met.get((s, w), {}).items()) if f != 'x') or 'not met'})" for (s, w), fns in sorted(sites.items())][:120]
