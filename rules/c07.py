from absval import *
from model import *
from destate import *
from lib_err import errkinds
import run

WHAT = ("Every streaming read is evaluated at an alias event for low and high values of the repetition counter: it either reports the repetition limit or makes the same kind of request on a state "
        "whose position is the recorded anchor position of that alias, whose document and depth budget are the caller's, and whose counter is the caller's own, incremented by one; the counter is shared by every nested state and starts at a small constant for each document.")
ASSUMES = ["between one and a hundred thousand repetitions per event are accepted as the fixed multiple", "maps from alias to position are looked up by get or indexing"]

CLASSES = [("i8", "i16", "i32", "i64"), ("u8", "u16", "u32", "u64"), ("f32", "f64"), ("str", "string", "char", "identifier"), ("seq", "tuple", "tuple_struct"), ("map", "struct"), ("unit", "unit_struct"), ("bytes", "byte_buf")]


def request(name):
    n = name.rsplit("deserialize_", 1)[-1]
    for c in CLASSES:
        if n in c:
            return c[0]
    return n


def content(e, t):
    while isinstance(t, int) and e.terms[t][0] == "S":
        t = e.terms[t][2]
    return t


def havocs(e, t):
    """uids of the calls that may have changed what t denotes, and the value before them"""
    u = []
    t = content(e, t)
    while isinstance(t, int) and e.terms[t][0] == "y" and e.terms[t][1] in ("havoc", "loop"):
        if e.terms[t][1] == "havoc":
            u.append(e.terms[t][2])
        t = content(e, e.terms[t][3])
    return u, t


def cdelta(D, e, t, role):
    """change of a counter behind a pointer"""
    if t == "own":
        return 0
    t = havocs(e, t)[1]
    k = e.terms.get(t)
    if k is None:
        return None
    if k[0] == "i":
        return ("const", k[1])
    if k[0] == "d" and D.own(e, k[1], role):
        return 0
    if D.own(e, t, role):
        return 0
    if k[0] == "a" and base(k[1])[1] in ("saturating_add", "wrapping_add", "saturating_sub", "wrapping_sub") and len(k[2]) == 2:
        d, n = cdelta(D, e, k[2][0], role), e.int(k[2][1])
        return None if n is None or not isinstance(d, int) else d + (n if "add" in base(k[1])[1] else -n)
    if k[0] == "b" and k[1] in ("Add", "Sub"):
        d, n = cdelta(D, e, k[2], role), e.int(k[3])
        return None if n is None or not isinstance(d, int) else d + (n if k[1] == "Add" else -n)
    if k[0] == "f" and k[2] == "Some" and e.terms[k[1]][0] == "a" and base(e.terms[k[1]][1])[1] in ("checked_add", "checked_sub"):
        a = e.terms[k[1]]
        d, n = cdelta(D, e, a[2][0], role), e.int(a[2][1])
        return None if n is None or not isinstance(d, int) else d + (n if "add" in base(a[1])[1] else -n)
    return None


def ownpos(D, e, t):
    """the position is the caller's own, possibly moved"""
    if t == "own":
        return True
    for x in e.subterms(content(e, t)):
        k = e.terms[x]
        if k[0] == "y" and k[1] == "ret":
            return False
    return cdelta(D, e, t, D.pos) is not None


def lookups_of(D, e, p):
    """first arguments of lookups in a table of the document, keyed by position"""
    return {c.args[0] for c in p.calls() if c.args and any(e.terms[y][0] == "f" and "Document" in (e.ty(e.terms[y][1]) or "") or D.own(e, y, D.document) for y in e.subterms(c.args[0]))}


def check(ck):
    R, T = run.analyse(dict(DE_GROUP), dict(TOP_GROUP))
    D = DE(ck, R)
    if D.name is None:
        return
    if D.counter is None:
        ck.violation("anchor:counter", f"{D.name} has no repetition counter shared by reference")
        return
    follows = nested = 0
    for e in D.entries("Deserializer"):
        if e.name.startswith("<Deserializer as ") or e.error or e.cut:
            continue
        ck.use(e)
        n = e.name.rsplit("::", 1)[-1]
        req = request(n)

        def follow(p):
            """calls on a state that was moved to another position, with their states"""
            for c in p.calls():
                if not c.last.startswith("deserialize_"):
                    continue
                for a in c.args:
                    for st in D.states(e, a):
                        ps = D.get(e, st, D.pos)
                        if ps is not None and not ownpos(D, e, ps):
                            yield c, st, ps

        for p in e.paths:
            for c, st, ps in follow(p):
                follows += 1
                where = f"{e.name} {c.span}"
                d = cdelta(D, e, D.get(e, st, D.counter), D.counter)
                jumps = sum(1 for x in p.calls() if x.pos < c.pos and x.last in ("get", "index", "get_mut") and x.args and x.args[0] in lookups_of(D, e, p)) or 1
                ck.obl(None if d is None else d == jumps, f"{n}:counted", f"{jumps} alias(es) are followed with the repetition counter changed by {d}", where)
                doc = D.get(e, st, D.document)
                ck.obl(None if doc is None else doc == "own" or D.own(e, doc, D.document) or D.own(e, e.strip(doc), D.document), f"{n}:document", "an alias is followed into another document", where)
                b = D.delta(e, D.get(e, st, D.budget))
                ck.obl(None if b is None else b in (0, -1), f"{n}:depth", f"an alias is followed with the depth budget changed by {b}", where)
                # where to
                x = havocs(e, ps)[1]
                k = e.terms[x]
                moved = False
                while k[0] in ("d", "f", "b", "S"):
                    if k[0] == "b":
                        if e.int(k[3]) is None:
                            break
                        moved = moved or e.int(k[3]) != 0
                        x = k[2]
                    else:
                        x = k[2] if k[0] == "S" else k[1]
                    k = e.terms[x]
                src = e.call_of(x) if k[0] == "y" else None
                if src is not None and src.last in ("get", "index", "get_mut", "remove", "get_key_value") and src.args[0] in lookups_of(D, e, p):
                    ids = e.subterms(src.args[1])
                    ok = any(e.terms[y][0] == "f" and e.terms[y][2] == "Alias" for y in ids)
                    ck.obl(False if moved else ok or None, f"{n}:target", "the position followed is not the one recorded for the alias", where)
                elif src is None and not any(e.terms[y][0] == "y" and e.terms[y][1] != "param" for y in e.subterms(ps)):
                    ck.obl(False, f"{n}:target", "the position followed is not looked up in the alias table", where)
                else:
                    ck.obl(None, f"{n}:target", "origin of the new position not recognised", where)
                if c.last.startswith("deserialize_"):
                    ck.obl(request(c.last) == req, f"{n}:request", f"an alias is followed by {c.last}", where)
                # the counter used below is the caller's
                if p.end == "return":
                    for i, t in p.out.items():
                        if i == 0:
                            for s2 in D.states(e, t):
                                ct = D.get(e, s2, D.counter)
                                if ct in (None, "own"):
                                    continue
                                ck.obl(c.uid in havocs(e, ct)[0], f"{n}:shared", "repetitions below an alias are counted in a copy that is dropped", where)
                                ck.obl(True if cdelta(D, e, ct, D.counter) in (1, jumps) else None, f"{n}:kept", "the increment is lost", where)
            if p.end != "return":
                continue
        # decisions at an alias
        if not any(True for p in e.paths for _ in follow(p)) and req in ("ignored_any", "newtype_struct", "bytes"):
            continue
        for tag, ctr, ln, must in (("low", I(0, 9), 10, "follow"), ("lowmany", I(0, 9999), 10000, "follow"), ("high", I(10 ** 6 + 1, 10 ** 9), 10, "stop"), ("highmany", I(10 ** 9 + 1, 10 ** 12), 10000, "stop")):
            def get(ev, av, at, t):
                if (e.ty(t) or "").startswith(("Option<&(", "&(")) and "Event" in e.ty(t):
                    x = Adt("tuple", None, {"0": Adt("Event", "Alias", {"0": X("alias")}), "1": X("mark")})
                    return Some(x) if e.ty(t).startswith("Option") else x
                return None
            env = {}
            for t, k in e.terms.items():
                if k[0] == "d" and D.own(e, k[1], D.counter):
                    env[t] = ctr
                if k[0] == "d" and D.own(e, k[1], D.pos):
                    env[t] = I(0, ln - 1)
                if D.enum and D.own(e, t, D.enum):
                    env[t] = NONE
            ev = Ev(e, env, fns={"get": get, "index": get, "len": lambda ev, av, at, t: I(ln, ln), "call:get": lambda ev, av, args, c: Some(X("target"))})
            rs = ev.outcomes(("return", "back", "panic"))
            got = 0
            for f, p, ch in rs:
                fl = any(True for _ in follow(p))
                lim = p.end == "return" and "RepetitionLimitExceeded" in errkinds(e, p.val)
                visits = [c for c in p.calls() if c.last.startswith("visit_")]
                if p.end == "panic":
                    continue    # a matter of C14
                if must == "follow":
                    ok = fl
                    ck.obl(ok if f in ("yes", "free") or not ok and not visits and len(rs) == 1 else ok or None, f"{n}:followed", f"an alias met after {ctr} repetitions in {ln} events is not followed by the same request" + (" but visited as it is" if visits else ""), f"{e.name} {p.span}")
                    got += fl
                else:
                    ck.obl(False if fl else True if lim else None if visits else True, f"{n}:bounded", f"an alias is followed after {ctr} repetitions in {ln} events", f"{e.name} {p.span}")
                    got += lim
            ck.obl(got > 0 if rs else None, f"{n}:{tag}", f"at an alias with {ctr} repetitions in {ln} events {n} never " + ("follows it" if must == "follow" else "reports the repetition limit"), e.span)
    ck.floor("alias jumps", follows, 20)
    # nested states share the counter
    for e in D.entries("Deserializer", "SeqAccess", "MapAccess", "EnumAccess", "VariantAccess"):
        if e.error or e.cut or e.name.startswith("<Deserializer as "):
            continue
        ck.use(e)
        n = e.name.rsplit("::", 1)[-1]
        for p in e.paths:
            for c in p.calls():
                for a in c.args:
                    for st in D.states(e, a):
                        ct = D.get(e, st, D.counter)
                        ps = D.get(e, st, D.pos)
                        if ct == "own" or ct is None or ps is None or not ownpos(D, e, ps):
                            continue
                        nested += 1
                        d = cdelta(D, e, ct, D.counter)
                        ck.obl(None if d is None else not isinstance(d, tuple) and d >= 0, f"{n}:{c.last}:inherit", f"{c.last} gets a repetition counter changed by {d}", f"{e.name} {c.span}")
                        if p.end == "return" and e.terms[ct][0] == "S" and c.kind != "pure":
                            ptr = e.terms[ct][1]
                            ok = D.own(e, ptr, D.counter)
                            if not ok and e.terms[ptr][0] == "r" and e.terms[ptr][1] != "H":
                                ck.obl(c.uid in [u for i, t in p.out.items() for s2 in D.states(e, t) if isinstance(D.get(e, s2, D.counter), int) for u in havocs(e, D.get(e, s2, D.counter))[0]], f"{n}:{c.last}:copy", f"{c.last} gets a copy of the repetition counter", f"{e.name} {c.span}")
                            else:
                                ck.obl(ok or None, f"{n}:{c.last}:same")
            if p.end == "return" and " as Deserializer>" not in e.name:
                for st in D.states(e, p.val):
                    ct = D.get(e, st, D.counter)
                    if ct == "own" or ct is None:
                        continue
                    nested += 1
                    d = cdelta(D, e, ct, D.counter)
                    ck.obl(None if d is None else not isinstance(d, tuple) and d >= 0, f"{n}:result", f"{n} returns a state whose repetition counter is changed by {d}", f"{e.name} {p.span}")
    ck.floor("states sharing the counter", nested, 30)
    n = 0
    for e in T.entries:
        if " as Deserializer>" not in e.name or e.error or e.cut:
            continue
        ck.use(e)
        for p in e.paths:
            for c in p.calls():
                for a in c.args:
                    for st in D.states(e, a):
                        ct = D.get(e, st, D.counter)
                        if ct in ("own", None):
                            continue
                        n += 1
                        d = cdelta(D, e, ct, D.counter)
                        ck.obl(None if not isinstance(d, tuple) else d[1] <= 1, f"{e.name}:initial", f"a document starts with repetition counter {d}", f"{e.name} {c.span}")
    ck.floor("initial states", n, 20)
