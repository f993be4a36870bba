from absval import *
from model import *
from destate import *
from lib_err import errkinds
import run

WHAT = ("Every place where the streaming deserializer hands a sequence, mapping or newtype wrapper to a visitor, a nested state to a seed, or itself to a recursive call is checked for the depth budget it passes on: "
        "visitors of containers get one less than the caller has, nothing gets more, an exhausted budget reaches no container visitor and yields the recursion-limit error, and the budget is whole again afterwards.")
ASSUMES = ["user Deserialize implementations recurse only through the deserializers they are given", "recursion that is not per container level (an alias to the anchored event, an enum's content) adds a bounded number of frames per level"]


def exempt(ck, D, c, ev):
    """an access that never deserializes a nested node (its own methods are evaluated on it)"""
    a = ev.ev(c.args[1])
    if not isinstance(a, Adt):
        return None
    names = [e for e in D.entries("SeqAccess", "MapAccess") if e.name.startswith(f"<{a.name} as ") and e.name.endswith(("next_element_seed", "next_key_seed"))]
    if len(names) != 1 or names[0].cut or names[0].error:
        return None
    e = names[0]
    ev2 = Ev(e, {e.params[0][0]: a})
    for f, p, ch in ev2.outcomes(("return", "back", "panic")):
        if any(x.last == "deserialize" for x in p.calls()):
            return False
    return True


def check(ck):
    R, T = run.analyse(dict(DE_GROUP), dict(TOP_GROUP))
    D = DE(ck, R)
    if D.name is None:
        return
    if D.budget is None:
        ck.violation("anchor:budget", f"{D.name} has no single integer field that is spent before containers are visited")
        return
    LIMIT = "RecursionLimitExceeded"
    kinds = {"visit_seq": 0, "visit_map": 0, "visit_newtype_struct": 0}
    nested = 0
    entries = [e for e in D.entries("Deserializer", "SeqAccess", "MapAccess", "EnumAccess", "VariantAccess") if not e.name.startswith("<Deserializer as ")]
    for e in entries:
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut")
            continue
        ck.use(e)
        n = e.name.rsplit("::", 1)[-1]
        deser = " as Deserializer>" in e.name
        ev0 = Ev(e, {})
        for p in e.paths:
            for c in p.calls():
                where = f"{e.name} {c.span}"
                if c.last in kinds and len(c.args) == 2:
                    if exempt(ck, D, c, ev0):
                        ck.count("visits of accesses that hold nothing")
                        continue
                    sts = D.states(e, c.args[1])
                    if not sts:
                        ck.undecided(f"{n}:{c.last}", "no state recognised in the access")
                        continue
                    kinds[c.last] += 1
                    for st in sts:
                        d = D.delta(e, D.get(e, st, D.budget))
                        ck.obl(None if d is None else d == -1 if not isinstance(d, tuple) else False, f"{n}:{c.last}:spent", f"{c.last} is reached with budget change {d} instead of -1", where)
                    # the subtraction must have been checked against exhaustion: decided below for budget 0
                elif c.last in ("visit_some", "visit_enum") or c.kind == "rec" or c.last == "deserialize":
                    for a in c.args:
                        for st in D.states(e, a):
                            d = D.delta(e, D.get(e, st, D.budget))
                            nested += 1
                            ck.obl(None if d is None else d != "bad" and not isinstance(d, tuple) and d <= 0, f"{n}:{c.last}:inherit", f"{c.last} passes on a budget changed by {d}", where)
                            ck.obl(None if d is None or d == "bad" or isinstance(d, tuple) else d == 0 or c.kind == "rec", f"{n}:{c.last}:shared", f"{c.last} passes on a budget changed by {d}, although no level was entered", where)
                            if c.kind == "rec" and d == 0:
                                evs = D.event(e, p)
                                ck.obl(None if evs is None else evs == {"Alias"}, f"{n}:recursion", f"recursion at a {evs} event spends no budget", where)
            if p.end == "return":
                for i, t in p.out.items():
                    if not deser or i != 0:
                        continue
                    for st in D.states(e, t):
                        b = D.get(e, st, D.budget)
                        # what a callee left is what it was given (each one is checked on its own)
                        while isinstance(b, int) and e.terms[b][:2] == ["y", "havoc"]:
                            b = e.terms[b][3]
                        d = D.delta(e, b)
                        ck.obl(None if d is None else d == 0, f"{n}:restored", f"the budget is changed by {d} when {n} is done", f"{e.name} {p.span}")
                # a state made for the caller (enum contents)
                if not deser:
                    for st in D.states(e, p.val):
                        d = D.delta(e, D.get(e, st, D.budget))
                        nested += 1
                        ck.obl(None if d is None else d == 0, f"{n}:result", f"the state {n} returns has its budget changed by {d}", f"{e.name} {p.span}")
        # exhaustion
        if not deser:
            continue
        for lo, hi in ((0, 0), (1, 1), (2, 200)):
            ev = Ev(e, D.env(e, D.budget, I(lo, hi)))
            limit = False
            for f, p, ch in ev.outcomes(("return", "back", "panic")):
                ev.at(ch)
                hit = [c for c in p.calls() if c.last in kinds and len(c.args) == 2 and D.states(e, c.args[1]) and not exempt(ck, D, c, ev)]
                isl = p.end == "return" and LIMIT in errkinds(e, p.val)
                limit = limit or isl
                if lo == 0:
                    for c in hit:
                        ck.obl(False, f"{n}:exhausted:{c.last}", f"{c.last} is reached with an exhausted budget", f"{e.name} {c.span}")
                    if p.end == "panic" and "Sub" in str(p.val[0]) and any(e.terms[t][0] == "b" and e.terms[t][1] == "SubOvf" and D.delta(e, e.terms[t][2]) == 0 for t in p.facts):
                        ck.obl(False, f"{n}:exhausted:panic", "an exhausted budget overflows", f"{e.name} {p.span}")
                elif isl:
                    ck.obl(False, f"{n}:spurious", f"a budget of {lo}..{hi} is reported as exhausted", f"{e.name} {p.span}")
                else:
                    ck.obl(True, n)
            if lo == 0 and any(c.last in kinds and not exempt(ck, D, c, ev0) for p in e.paths for c in p.calls()):
                ck.obl(limit, f"{n}:limit-error", f"{n} never reports {LIMIT} for an exhausted budget", e.span)
    for k, least in (("visit_seq", 2), ("visit_map", 2), ("visit_newtype_struct", 1)):
        ck.floor(f"{k} events", kinds[k], least)
    ck.floor("inherited states", nested, 10)
    # every document starts with a small constant budget
    n = 0
    for e in T.entries:
        if " as Deserializer>" not in e.name or e.error or e.cut:
            continue
        ck.use(e)
        for p in e.paths:
            for c in p.calls():
                for a in c.args:
                    for st in D.states(e, a):
                        b = D.get(e, st, D.budget)
                        if b == "own":
                            continue
                        n += 1
                        d = D.delta(e, b)
                        ck.obl(None if not isinstance(d, tuple) else 1 <= d[1] <= 1024, f"{e.name}:initial", f"a document starts with budget {d}", f"{e.name} {c.span}")
    ck.floor("initial states", n, 20)
