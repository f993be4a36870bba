import re
from valde import *
import run

WHAT = ("Each pair of methods that reads an owned and a borrowed Value (the deserializers, variant accessors, enum accessors, and element accessors) is evaluated for every kind of node, tagged or not, empty or not: the visitor callbacks with their payloads, and the result or the kind and arguments of the error, must be the same.")
ASSUMES = ["nodes of one kind are treated alike beyond the distinctions the code itself makes (unknown ones are reported as undecided)"]


def pair_name(n):
    n = re.sub(r"^<&?('\w+ )?(mut )?", "<", n)
    return re.sub(r"(\w+)Ref(\w*) as", r"\1\2 as", n)


def text_of(ev):
    n, a = ev
    return n + "(" + ", ".join(short(x) for x in a) + ")"


def short(c):
    if c is None:
        return "?"
    if isinstance(c, tuple):
        if len(c) == 1:
            return str(c[0])
        if c[0] == "text":
            return repr(c[1])
        if c[0] == "int":
            return str(c[1]) if c[1] == c[2] else f"{c[1]}..{c[2]}"
        if c[0] == "list":
            return "[" + ", ".join(short(x) for x in c[1:]) + "]"
        return (c[1] or c[0]) + ("{" + ", ".join(short(x[1]) for x in c[2:]) + "}" if len(c) > 2 else "")
    return str(c)


def describe(keys):
    out = []
    for evs, res in sorted(keys, key=repr):
        out.append(" ".join(text_of(x) for x in evs) + " -> " + short(res))
    return " or ".join(out)[:300]


def known(keys):
    return bool(keys) and all(res is not None and all(a is not None for _, args in evs for a in args) for evs, res in keys)


def scenarios(e):
    """(label, arguments of selfenv) covering everything the receiver can hold"""
    own = {e.params[0][0]} | {t for t, k in e.terms.items() if k[0] == "d" and k[1] == e.params[0][0]}
    tys = {clean(e.ty(t)) for t, k in e.terms.items() if k[0] == "f" and k[1] in own}
    recv = clean(e.params[0][1]).partition("<")[0]
    if recv in ("Value", "TaggedValue"):
        for l, v in nodes():
            if recv == "Value" or v.variant == "Tagged":
                yield l, dict(node=v)
        return
    if "Option<Value>" in tys and not any(ty.startswith(("IntoIter", "Iter", "Option<IntoIter", "Option<Iter")) for ty in tys):
        for l, v in nodes():
            yield l, dict(node=v)
        yield "no value", dict(node=Val("Null"), absent=True)
        return
    for l, s in (("nothing left", L()), ("one left", L([X("e0")])), ("two left", L([X("e0"), X("e1")]))):
        for tx in ("t", ""):
            yield l, dict(node=Val("Null"), seq=s, text=tx)


def check(ck):
    R = run.analyse(dict(VALDE_GROUP))
    by = {}
    for e in R.entries:
        if re.search(r" as (Deserializer|VariantAccess|EnumAccess|SeqAccess|MapAccess)>::", e.name):
            by.setdefault(pair_name(e.name), []).append(e)
    n = m = 0
    for name, es in sorted(by.items()):
        if len(es) != 2:
            continue
        es.sort(key=lambda e: "&" in e.name.split(" as ")[0] or "Ref" in e.name.split(" as ")[0])
        a, b = es
        if a.error or a.cut or b.error or b.cut:
            ck.undecided(name, "analysis cut")
            continue
        ck.use(a), ck.use(b)
        n += 1
        for (l, kw) in scenarios(a):
            if "Map" in name and kw.get("seq") is not None:
                kw = dict(kw, seq=L([Adt("tuple", None, {"0": x, "1": X("v" + x.name)}) for x in kw["seq"].xs]))
            for outcome in ("ok", "err"):
                ka, ua = keys(a, kw, outcome)
                kb, ub = keys(b, kw, outcome)
                m += 1
                if not known(ka) or not known(kb) or ua or ub:
                    ck.undecided(name, l)
                    continue
                if outcome == "err" and all(not evs for evs, _ in ka | kb):
                    continue
                ck.obl(ka == kb, f"{name}", f"{l}: an owned value gives {describe(ka)} but a borrowed one {describe(kb)}", f"{b.name} {b.span}")
    ck.floor("pairs", n, 40)
    ck.floor("comparisons", m, 1000)


def keys(e, kw, outcome):
    sg = signatures(e, selfenv(e, **kw), outcome)
    ks = {s.key() for f, s in sg}
    unsure = any(f == "maybe" for f, s in sg) and len(ks) > 1
    return ks, unsure
