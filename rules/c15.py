import re
from render import *
import run

WHAT = ("Error values of every variant, with and without a recorded position, are followed through location(), the accessors of Location, Display and Debug on their extracted paths, with zero and nonzero lines and columns told apart; "
        "and the error captured from the low-level parser is followed from the parser's fields to location().")
ASSUMES = ["line and column do not overflow when one is added", "sample lines and columns stand for their class: the code only compares them with zero and with each other (anything else is reported as undecided)"]
GROUPS = [dict(entries=["error|*", "error::*|*", "libyaml::error|*", "path|*", "path::*|*", "libyaml::cstr|*", "libyaml::cstr::*|*"], max_paths=6000), dict(entries=["libyaml::parser|Parser::*"], max_paths=8000), dict(entries=["loader|*"], opaque=["*Parser::*"], max_paths=4000)]
PLACES = [(0, 0), (0, 5), (6, 0), (2 ** 33 + 6, 2 ** 34 + 9), (7, 31), (31, 7)]
RE_SHOWN = re.compile(r"line (\d+) column (\d+)")
RE_DEBUG = re.compile(r"line: (\d+), column: (\d+)")


def sysmark(l, c, i):
    return Adt("yaml_mark_t", None, {"index": I(i, i), "line": I(l, l), "column": I(c, c)})


def mark(l, c, i):
    m = sysmark(l, c, i)
    return Adt("Mark", None, dict(m.fields, sys=m))


def impl(v, *a):
    return Adt("ErrorImpl", v, {str(i): x for i, x in enumerate(a)})


def error(x):
    return Adt("Error@error", None, {"0": x})


def libyaml(l, c, i, context=None):
    return Adt("Error@libyaml::error", None, {"kind": Adt("yaml_error_type_t", "YAML_NO_ERROR", {}), "problem": X("problem"), "problem_offset": I(0, 0), "problem_mark": mark(l, c, i), "context": Some(X("context")) if context else NONE, "context_mark": mark(*(context or (0, 0, 0)))})


def variants(R):
    out = set()
    for e in R.entries:
        for t, k in e.terms.items():
            if k[0] == "D" and re.search(r"\bErrorImpl$", e.ty(k[1]) or "") and len(k) > 2:
                out |= set(k[2])
    return out


def place(v):
    """(line, column, index) of a Location value"""
    if isinstance(v, Adt) and {"line", "column", "index"} <= set(v.fields):
        t = tuple(v.fields[n].const if isinstance(v.fields[n], I) else None for n in ("line", "column", "index"))
        return t
    return None


class Locate:
    def __init__(self, ck, R):
        self.R = R
        by = {e.name: e for e in R.entries if e.module == "error"}
        self.ok = True
        self.loc = by.get("Error::location")
        self.acc = {n: by.get(f"Location::{n}") for n in ("line", "column", "index")}
        for n, e in [("Error::location", self.loc)] + [(f"Location::{n}", e) for n, e in self.acc.items()]:
            if e is None:
                ck.violation(f"missing:{n}", f"{n} is gone", "error")
                self.ok = False
            else:
                ck.use(e)

    def call(self, e, v):
        """value e returns for v, or None"""
        fns = dict(FNS)
        for n in {c.last for p in e.paths for c in p.calls() if c.kind == "rec"}:
            fns["call:" + n] = self.again
        ev = Ev(e, {e.params[0][0]: v}, fns=fns)
        out = []
        for p in e.paths:
            f = ev.feasible(p)
            if f == "no" or p.end != "return":
                continue
            out.append((f, ev.ev(p.val), p))
        return out

    def again(self, ev, av, args, c):
        """a method called again on the error inside a shared one"""
        es = [x for x in self.R.entries if x.name == c.name and x.module == "error" and len(x.params) == 1]
        if len(es) != 1 or not av or av[0] is None or self.depth > 3:
            return None
        self.depth += 1
        rs = [v for f, v, p in self.call(es[0], av[0])]
        self.depth -= 1
        return rs[0] if len(rs) == 1 else None

    depth = 0

    def of(self, err):
        """set of 'none' / (line, column, index) / None unknown, as a user reads them"""
        got = set()
        for f, v, p in self.call(self.loc, err):
            if v == NONE:
                got.add("none")
            elif isinstance(v, Adt) and v.variant == "Some":
                l = v.fields.get("0")
                t = []
                for n in ("line", "column", "index"):
                    r = {x.const if isinstance(x, I) else None for f2, x, p2 in self.call(self.acc[n], l)} if l is not None else {None}
                    t.append(next(iter(r)) if len(r) == 1 else None)
                got.add(tuple(t) if None not in t else None)
            elif v is None and self.loc_recursive(p):
                # the position of the error it shares
                got.add("inner")
            else:
                got.add(None)
        return got

    def loc_recursive(self, p):
        return any(c.kind == "rec" for c in p.calls())


def check(ck):
    R, P, L = [run.analyse(g) for g in GROUPS]
    lo = Locate(ck, R)
    if not lo.ok:
        return
    rd = Render(R)
    known = variants(R)
    ck.floor("error variants", len(known), 10)
    n = 0
    for l, c in PLACES:
        i = 2 ** 33 + 1009
        at = (l + 1, c + 1, i)
        m = mark(l, c, i)
        pos = Adt("Pos", None, {"mark": m, "path": S("a.b")})
        cases = [("Message", impl("Message", S("message"), NONE), None), ("Message", impl("Message", S("message"), Some(pos)), at)]
        cases += [(v, impl(v, m), at) for v in ("RecursionLimitExceeded", "UnknownAnchor")]
        cases += [("Libyaml", impl("Libyaml", libyaml(l, c, i, ctx)), at) for ctx in (None, (0, 0, 1), (40, 2, 1), (l, c, 1))]
        if (l, c) == PLACES[-1]:
            cases += [(v, impl(v, X("detail")), None) for v in ("Io", "FromUtf8")]
            cases += [(v, impl(v), None) for v in sorted(known - {x[0] for x in cases} - {"Shared"})]
        cases += [("Shared", impl("Shared", x), w) for v, x, w in list(cases)]
        for v, x, want in cases:
            if v not in known:
                # the crate's own name for it may change
                ck.undecided(f"variant:{v}", "no such variant")
                continue
            inner = x.fields["0"].variant if v == "Shared" else None
            lab = f"{v}({inner})" if inner else v
            n += 1
            e = error(x)
            got = lo.of(e)
            what = f"{lab} at line {l} column {c}" if want else lab
            if None in got or not got:
                ck.undecided(f"location:{lab}", what)
            else:
                for g in got:
                    if g == "inner":
                        # a recursive call: the shared error's own position, judged as that variant
                        continue
                    ck.obl(g == (want or "none"), f"location:{lab}", f"{what} (counted from zero), index {i}: location() gives {g if g == 'none' else 'line %d column %d index %d' % g} instead of {want or 'none'}", f"{lo.loc.name} {lo.loc.span}")
            for how, rx in (("display", RE_SHOWN), ("debug", RE_DEBUG)):
                r = rd.value(e, how)
                if not r or None in r and not (r - {None}):
                    ck.undecided(f"{how}:{lab}", what)
                    continue
                ents = rd.entries("Error", how.capitalize())
                where = f"{ents[0].name} {ents[0].span}" if ents else "error"
                for t in r - {None}:
                    shown = [tuple(int(y) for y in z.groups()) for z in rx.finditer(t)]
                    lib = (inner or v) == "Libyaml"
                    if want is None:
                        ck.obl(not shown, f"{how}:{lab}", f"{what} is shown as {t!r}, with a position nothing recorded", where)
                        continue
                    ctx = x.fields["0"].fields["0"] if inner else x.fields["0"]
                    cm = ctx.fields.get("context_mark") if isinstance(ctx, Adt) else None
                    cm = cm.fields["sys"].fields if cm else None
                    also = (cm["line"].const + 1, cm["column"].const + 1) if cm else None
                    main = at[:2]
                    if (l, c) != (0, 0):
                        ck.obl(bool(shown) and shown[0] == main, f"{how}:{lab}", f"{what} (counted from zero) is shown as {t!r} instead of line {main[0]} column {main[1]}", where)
                        rest = shown[1:]
                    else:
                        rest = shown
                    for s in rest:
                        ck.obl(s == also or s == main, f"{how}:{lab}:context", f"{what} (counted from zero), with its context at {also} (counted from one), is shown as {t!r}", where)
                    # in a message that names one number only
                    odd = re.search(r"\b(line|column)\b(?! \d+ column| ?: ?\d+)", RE_SHOWN.sub("", t)) if how == "display" else None
                    ck.obl(None if odd else True, f"{how}:{lab}:form")
    # the position the low-level parser reported
    k = 0
    rep, ctx = (6, 12, 345), (2, 4, 8)
    for e in P.entries + [x for x in R.entries if x.module == "libyaml::error"]:
        if e.cut or e.error:
            continue
        env = {}
        for t, q in e.terms.items():
            if q[0] == "f" and q[3] in ("problem_mark", "context_mark", "mark", "start_mark", "end_mark") and (e.ty(t) or "").endswith("yaml_mark_t"):
                env[t] = sysmark(*{"problem_mark": rep, "context_mark": ctx}.get(q[3], (90, 91, 92)))
        if not any(q[0] == "f" and q[3] == "problem_mark" and "yaml_parser_t" in (e.ty(q[1]) or "") for q in e.terms.values()):
            continue
        ck.use(e)
        ev = Ev(e, env, fns=FNS)
        for p in e.paths:
            if p.end != "return":
                continue
            v = ev.ev(p.val)
            if isinstance(v, Adt) and v.variant == "Ok":
                continue
            if isinstance(v, Adt) and v.variant == "Err":
                v = v.fields.get("0")
            if not isinstance(v, Adt) or "problem_mark" not in v.fields:
                ck.undecided(f"captured:{e.name}", "error not followed")
                continue
            k += 1
            got = lo.of(error(impl("Libyaml", v)))
            want = (rep[0] + 1, rep[1] + 1, rep[2])
            if got != {want} and (None in got or not got):
                ck.undecided(f"captured:{e.name}", "location not followed")
                continue
            ck.obl(got == {want}, f"captured:{e.name}", f"the parser reports its problem at line {rep[0]} column {rep[1]} index {rep[2]} (counted from zero), but location() gives {sorted(got, key=str)}", f"{e.name} {p.span}")
            r = rd.value(Adt("Error@libyaml::error", None, v.fields))
            for t in (r or set()) - {None}:
                sh = RE_SHOWN.search(t)
                ck.obl(bool(sh) and (int(sh.group(1)), int(sh.group(2))) == want[:2], f"captured:shown:{e.name}", f"that error is shown as {t!r}", f"{e.name} {p.span}")
    ck.floor("captured errors", k, 1)
    # errors the loader makes itself record the place of the event they are about
    for e in L.entries:
        if e.cut or e.error:
            ck.undecided(e.name, "analysis cut")
            continue
        for p in e.paths:
            seen = set()
            for t in [p.val] + list(p.out.values()) + list(p.heap.values()):
                if not isinstance(t, int):
                    continue
                for x in e.subterms(t):
                    q = e.terms[x]
                    if q[0] == "A" and q[2] == "UnknownAnchor" and x not in seen:
                        seen.add(x)
                        n += 1
                        a = e.terms[e.strip(q[3][0])] if q[3] else None
                        src = [y for y in e.subterms(q[3][0]) if e.terms[y][0] == "y" and e.terms[y][1] == "ret"] if q[3] else []
                        calls = {c.ret: c for c in p.calls()}
                        last = [c for c in p.calls() if c.last == "next"]
                        good = last and src == [last[-1].ret]
                        ck.obl(True if good else None, "anchor:mark")
    ck.floor("errors", n, 100)
