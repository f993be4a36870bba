"""What the deserializers over a Value do for every kind of node: the callbacks made, with their payloads, and the result."""
from absval import *
from model import *
from sim import *

VALDE_GROUP = dict(entries=["value::de|<*", "value::tagged|<*"], max_paths=6000)
FAILS = ("invalid_type", "invalid_value", "invalid_length", "custom", "missing_field", "unknown_variant", "unknown_field", "duplicate_field")


def Tagged(tag, v):
    return Val("Tagged", Adt("TaggedValue", None, {"tag": Adt("Tag", None, {"string": S(tag)}), "value": v}))


def pairs(*ks):
    return L([Adt("tuple", None, {"0": k, "1": X(f"v{i}")}) for i, k in enumerate(ks)])


def plain_nodes():
    yield "null", Val("Null")
    yield "true", Val("Bool", TRUE)
    yield "false", Val("Bool", FALSE)
    for l, v, k in (("0", 0, "PosInt"), ("7", 7, "PosInt"), ("200", 200, "PosInt"), ("70000", 70000, "PosInt"), ("2^40", 2 ** 40, "PosInt"), ("2^64-1", 2 ** 64 - 1, "PosInt"), ("-1", -1, "NegInt"), ("-300", -300, "NegInt"), ("-2^63", -2 ** 63, "NegInt")):
        yield l, Val("Number", Num(N(k, I(v, v))))
    for c in FCLASSES:
        yield f"a float ({c})", Val("Number", Num(N("Float", F(c, "x" if c != "nan" else "nan"))))
    for s in ("", "text", "null", "true", "1"):
        yield f"the string {s!r}", Val("String", S(s))
    for n in range(3):
        yield f"a sequence of {n}", Val("Sequence", L([X(f"e{i}") for i in range(n)]))
    for n in range(3):
        yield f"a mapping of {n}", Val("Mapping", pairs(*[X(f"k{i}") for i in range(n)]))
    yield "a mapping with a string key", Val("Mapping", pairs(Val("String", S("key"))))


def nodes():
    for l, v in plain_nodes():
        yield l, v
    for tag in ("t", "!t"):
        for l, v in plain_nodes():
            if tag == "t" or l in ("null", "true", "a sequence of 2", "the string 'text'"):
                yield f"{l} tagged {tag}", Tagged(tag, v)
    for l, v in (("null", Val("Null")), ("a sequence of 2", Val("Sequence", L([X("e0"), X("e1")]))), ("a mapping of 1", Val("Mapping", pairs(X("k0")))), ("the string 'text'", Val("String", S("text")))):
        yield f"{l} tagged twice", Tagged("t", Tagged("u", v))


def same(ev, av, at, t):
    return av[0] if av else None


def call_same(ev, av, args, c):
    return av[0] if av else None


def _new(ev, av, at, t):
    ty = (ev.e.ty(t) or "").partition("<")[0].rsplit("::", 1)[-1]
    if ty.endswith("StrDeserializer"):
        return Adt("StrDeserializer", None, {"0": av[0]}) if av else None
    return FNS["new"](ev, av, at, t)


def _size_hint(ev, av, at, t):
    v = iter_of(av[0]) if av else None
    if isinstance(v, L):
        k = I(len(v.xs), len(v.xs))
        return Adt("tuple", None, {"0": k, "1": Some(k)})


def fns(extra=None):
    f = dict(FNS)
    for s in ("into_iter", "iter", "by_ref", "as_str", "as_ref", "into", "into_boxed_slice", "as_mut"):
        f[s] = same
        f["call:" + s] = call_same
    f["size_hint"] = _size_hint
    f["call:size_hint"] = as_call(_size_hint)
    f["new"] = _new
    f["call:new"] = lambda ev, av, args, c: _new(ev, av, args, c.ret)
    f["const_new"] = f["new"]
    f["call:next"] = lambda ev, av, args, c: FNS["first"](ev, av, args, c.ret)
    f["havoc:next"] = lambda ev, old, c, t: rest(old)
    f.update(extra or {})
    return f


def rest(v):
    if isinstance(v, L):
        return L(v.xs[1:])
    if isinstance(v, Adt):
        return Adt(v.name, v.variant, {k: rest(x) for k, x in v.fields.items()})
    return v


def clean(ty):
    return (ty or "").replace("&mut ", "").replace("&", "").replace("'de ", "")


def selfenv(e, node=None, seq=None, text="t", absent=False):
    """bind everything the function can read of its own receiver"""
    env = {}
    recv = e.params[0][0]
    tv = node.fields.get("0") if node is not None and node.variant == "Tagged" else None
    for t, k in sorted(e.terms.items()):
        if k[0] not in ("y", "d", "f") or k[0] == "y" and k[1] != "param":
            continue
        sub = list(e.subterms(t))
        if recv not in sub or any(e.terms[x][0] == "y" and e.terms[x][1] != "param" for x in sub):
            continue
        if any(x in env and x != t for x in sub):
            continue
        ty = clean(e.ty(t))
        if ty == "Value":
            env[t] = node
        elif ty == "TaggedValue" and tv is not None:
            env[t] = tv
        elif ty == "Option<Value>":
            env[t] = NONE if absent else Some(node)
        elif ty in ("str", "String"):
            env[t] = S(text)
        elif ty.startswith(("IntoIter", "Iter")) and seq is not None:
            env[t] = seq
        elif ty.startswith(("Option<IntoIter", "Option<Iter")) and seq is not None:
            env[t] = Some(seq)
    for root in [recv] + [t for t, k in e.terms.items() if k[0] == "d" and k[1] == recv]:
        if root in env:
            continue
        fs = {e.terms[x][3]: env[x] for x in env if e.terms[x][0] == "f" and e.terms[x][1] == root and not e.terms[x][2]}
        if fs:
            env[root] = Adt(clean(e.ty(root)).partition("<")[0], None, fs)
    return {t: v for t, v in env.items() if v is not None}


def norm_name(n):
    return "visit_str" if n in ("visit_borrowed_str", "visit_string", "visit_str") else n


def canon(v, d=0):
    """value without the difference between owning and borrowing; None when not known"""
    if v is None or d > 12:
        return None
    if isinstance(v, L):
        xs = [canon(x, d + 1) for x in v.xs]
        return None if any(x is None for x in xs) else ("list",) + tuple(xs)
    if isinstance(v, M):
        return ("list",) if not v.kv else None
    if isinstance(v, Adt):
        if not v.variant and len(v.fields) == 1:
            x = next(iter(v.fields.values()))
            if isinstance(x, (L, M)):
                return canon(x, d + 1)
            if isinstance(x, Adt) and not x.variant and len(x.fields) == 1:
                return canon(x, d + 1)
        if v.name.endswith("Deserializer") and len(v.fields) > 1 or v.name.endswith("Deserializer") and any(is_iter(x) for x in v.fields.values()):
            it = [x for x in v.fields.values() if is_iter(x)]
            if it or v.name.startswith(("Seq", "Map")):
                return canon(iter_of(it[0]), d + 1) if it else ("list",)
        fs = {k: canon(x, d + 1) for k, x in v.fields.items()}
        if any(x is None for x in fs.values()):
            return None
        name = v.name.replace("Ref", "").replace("Borrowed", "")
        return (name, v.variant) + tuple(sorted(fs.items()))
    if isinstance(v, S):
        return ("text", v.s)
    if isinstance(v, I):
        return ("int", v.lo, v.hi)
    return (repr(v),)


def iter_of(v):
    while isinstance(v, Adt) and len(v.fields) == 1:
        v = next(iter(v.fields.values()))
    return v


def is_iter(v):
    return isinstance(iter_of(v), (L, M))


class Sig:
    """what one path does: ordered events (callback, canonical payload) and the canonical result"""
    def __init__(self, events, result, path):
        self.events, self.result, self.path = events, result, path

    def key(self):
        return (tuple(self.events), self.result)


def signatures(e, env, outcome="ok", more=None):
    """-> list of (feasibility, Sig); results that are not known are None"""
    res = Adt("Result", "Ok", {"0": X("value")}) if outcome == "ok" else Adt("Result", "Err", {"0": X("callee error")})
    f = fns(more)
    hook = {}
    for p in e.paths:
        for c in p.calls():
            if c.last.startswith("visit_") or c.last.startswith("deserialize") or c.last in ("unit_variant", "newtype_variant_seed", "newtype_variant", "tuple_variant", "struct_variant", "variant_seed", "variant"):
                hook[c.last] = 1
    for n in hook:
        f["call:" + n] = lambda ev, av, args, c: res
        f["havoc:" + n] = lambda ev, old, c, t: old
    for n in FAILS:
        f["call:" + n] = lambda ev, av, args, c: Adt("Error", None, {"made": X(c.last + ":" + repr([canon(a) for a in av]))})
    ev = Ev(e, env, fns=f)
    out = []
    for fz, p, ch in ev.outcomes(("return", "panic")):
        if p.end == "panic" and "overflow" in str(p.val):
            continue
        ev.at(ch)
        evs = []
        for c in p.calls():
            n = norm_name(c.last)
            if c.last in hook:
                args = [canon(ev.ev(a)) for a in c.args if not ((e.terms[a][0] == "y" and e.terms[a][1] == "param") and a != e.params[0][0])]
                evs.append((n, tuple(args)))
        v = ev.ev(p.val) if p.end == "return" else None
        out.append((fz, Sig(evs, ("panic",) if p.end == "panic" else canon(v), p)))
    return out
