from serhist import *
from sertrees import *
import run

WHAT = ("The methods of the serializer that builds a Value, and those of the inner serializer that looks at the key of a one-entry map, are driven on their extracted paths through abstract histories of serde calls: every value shape nested to depth three, pairs of siblings, "
        "every kind of value as a map key, exact, unknown and wrong length hints, entries at once or key by key.  The Value each history gives is compared with the one serde's data model calls for.  Every scalar method is evaluated over the whole range of its type, split into regions.")
ASSUMES = ["callers follow serde's protocol and stop after the first error", "Vec::push appends, Mapping::insert replaces the value of an equal key or appends"]
GROUP = dict(entries=["value::ser|*", "value::ser::*|*"], opaque=["*Mapping::insert", "value::to_value", "*check_for_tag", "*Tag::new", "*Mapping::new", "*untag_ref"], max_paths=3000)
SER = Adt("Serializer", None, {})


class Empty(Exception):
    pass


def V(k, x=None):
    return ("V", k, x)


def bare(s):
    return s[1:] if s.startswith("!") and len(s) > 1 else s


def tagged(name, v):
    if name == "":
        raise Empty
    return V("Tagged", (bare(name), v))


def put(kv, k, v):
    if any(a == k for a, _ in kv):
        return [(a, v if a == k else b) for a, b in kv]
    return kv + [(k, v)]


def wanted(t, through):
    k = t[0]
    if k == "call":
        return t[3]
    if k in ("str", "text", "uv"):
        return V("String", t[1])
    if k == "unit":
        return V("Null")
    if k in ("some", "nts"):
        return wanted(t[1], through)
    if k == "ntv":
        if t[1] == "":
            raise Empty
        return tagged(t[1], wanted(t[2], through))
    if k in ("seq", "tv"):
        if k == "tv" and t[1] == "":
            raise Empty
        s = V("Sequence", [wanted(c, through) for c in t[2]])
        return tagged(t[1], s) if k == "tv" else s
    if k in ("struct", "sv"):
        if k == "sv" and t[1] == "":
            raise Empty
        kv = []
        for a, c in t[-1]:
            kv = put(kv, V("String", a), wanted(c, through))
        m = V("Mapping", kv)
        return tagged(t[1], m) if k == "sv" else m
    if k == "map":
        if (t[1] is True or t[1] == 1) and len(t[3]) == 1 and t[2] in ("entry", "mix"):
            d = t[3][0][0]
            while through and d[0] in ("some", "nts"):
                d = d[1]
            if d[0] == "text" and d[1].startswith("!") and len(d[1]) > 1:
                return tagged(d[1], wanted(t[3][0][1], through))
        kv = []
        for a, c in t[3]:
            kv = put(kv, wanted(a, through), wanted(c, through))
        return V("Mapping", kv)
    raise KeyError(k)


def reading(v):
    """an abstract Value in the same form, None where it is not known"""
    if not isinstance(v, Adt) or v.name.rpartition("::")[2] != "Value":
        return None
    x = v.fields.get("0")
    k = v.variant
    if k == "Null":
        return V("Null")
    if k == "Bool":
        return V("Bool", x.const) if isinstance(x, I) and x.const is not None else None
    if k == "String":
        return V("String", x.s) if isinstance(x, S) else None
    if k == "Number":
        n = x.fields.get("n") if isinstance(x, Adt) else None
        y = n.fields.get("0") if isinstance(n, Adt) else None
        if isinstance(y, I):
            return V("Number", (n.variant, y.lo, y.hi))
        if isinstance(y, F):
            return V("Number", (n.variant, tuple(sorted("nan" if c.endswith("nan") else c for c in y.cls)) if hasattr(y, "cls") else repr(y), getattr(y, "val", None)))
        return None
    if k == "Sequence":
        if not isinstance(x, L):
            return None
        xs = [reading(y) for y in x.xs]
        return None if None in xs else V("Sequence", xs)
    if k == "Mapping":
        if not isinstance(x, M):
            return None
        kv = [(reading(a), reading(b)) for a, b in x.kv]
        return None if any(None in p for p in kv) else V("Mapping", kv)
    if k == "Tagged":
        if isinstance(x, Adt) and "tag" not in x.fields and "0" in x.fields:
            x = x.fields["0"]
        g, y = (x.fields.get("tag"), x.fields.get("value")) if isinstance(x, Adt) else (None, None)
        s = next(iter(g.fields.values()), None) if isinstance(g, Adt) else None
        y = reading(y)
        return V("Tagged", (bare(s.s), y)) if isinstance(s, S) and y is not None else None
    return None


def say(v):
    if not isinstance(v, tuple) or not v or v[0] != "V":
        return str(v)
    k, x = v[1:]
    if k == "Null":
        return "null"
    if k == "String":
        return f'"{x}"'
    if k == "Sequence":
        return f"[{', '.join(map(say, x))}]"
    if k == "Mapping":
        return f"{{{', '.join(say(a) + ': ' + say(b) for a, b in x)}}}"
    if k == "Tagged":
        return f"!{x[0]} {say(x[1])}"
    if k == "Number" and isinstance(x[1], int):
        return f"{x[0]} {x[1]}" + (f"..{x[2]}" if x[2] != x[1] else "")
    return f"{k} {x}"


class ValueHist(Hist):
    def __init__(self, entries, fns=None, more=()):
        Hist.__init__(self, entries, dict({"call:new": self._new, "call:to_value": self._to_value, "havoc:insert": self._insert, "call:insert": lambda ev, av, a, c: X("old value"), "havoc:clear": lambda ev, old, c, t: M() if isinstance(old, M) else L([]) if isinstance(old, L) else None, "call:collect": self._collect, "call:untag_ref": self._untag, "collect": lambda ev, av, at, t: None}, **(fns or {})), more)

    def _new(self, ev, av, args, c):
        if "Mapping" in c.name or "Map" in (ev.e.ty(c.ret) or ""):
            return M()
        if "Tag" in c.name or (ev.e.ty(c.ret) or "") == "Tag":
            if av and isinstance(av[0], S):
                return Adt("Tag", None, {"string": av[0]})
        return FNS["call:new"](ev, av, args, c)

    def _untag(self, ev, av, args, c):
        v = av[0]
        while isinstance(v, Adt) and v.variant == "Tagged":
            v = v.fields.get("0")
            if isinstance(v, Adt) and "tag" not in v.fields and "0" in v.fields:
                v = v.fields["0"]
            v = v.fields.get("value") if isinstance(v, Adt) else None
        return v

    def _display(self, ev, av, at, t):
        v = av[0] if av else None
        if isinstance(v, Adt) and v.name.rpartition("::")[2] == "Tag" and "string" in v.fields and isinstance(v.fields["string"], S):
            return S("!" + bare(v.fields["string"].s))
        return Hist._display(self, ev, av, at, t)

    def _to_value(self, ev, av, args, c):
        return self.ser_value(av[0], SER) if av and av[0] is not None else None

    def _insert(self, ev, old, c, t):
        a = [ev.ev(x) for x in c.args]
        if isinstance(old, M) and len(a) == 3 and reading(a[1]) is not None:
            k = reading(a[1])
            if any(reading(b) == k for b, _ in old.kv):
                return M([(b, a[2] if reading(b) == k else w) for b, w in old.kv])
            return M(old.kv + ((a[1], a[2]),))
        if isinstance(old, L) and len(a) == 3 and isinstance(a[1], I) and a[1].const is not None and a[1].const <= len(old.xs):
            return L(list(old.xs[:a[1].const]) + [a[2]] + list(old.xs[a[1].const:]))

    def _collect(self, ev, av, args, c):
        xs = self.items(ev, args[0])
        return None if xs is None else L(xs)

    def items(self, ev, t):
        """what an iterator over a known list gives"""
        e = ev.e
        k = e.terms[t]
        if k[0] != "a" or not k[2]:
            return None
        n = base(k[1])[1]
        if n in ("iter", "into_iter"):
            src = ev.ev(k[2][0])
            return list(src.xs) if isinstance(src, L) else None
        xs = self.items(ev, k[2][0])
        if xs is None:
            return None
        if n in ("copied", "cloned"):
            return xs
        if n == "rev":
            return xs[::-1]
        if n == "map" and len(k[2]) == 2:
            fn = e.terms[k[2][1]]
            if fn[0] == "a" and fn[1] == "lambda":
                return [self.applied(ev, fn[2], x) for x in xs]
        return None

    def applied(self, ev, cases, x):
        e = ev.e
        bound = [t for c in cases for t in e.subterms(c) if e.terms[t][0] == "a" and str(e.terms[t][1]).startswith("bound0")]
        env = {t: x for t in bound}
        env.update({t: x for t in e.terms if e.terms[t][0] in ("d", "v") and e.terms[t][1] in bound})
        ev = Ev(e, env, fns=self.fns)
        for c in cases:
            k = e.terms[c]
            if k[0] != "a" or not str(k[1]).startswith("case:"):
                return ev.ev(c)
            facts = str(k[1])[5:].split(",")
            if len(facts) != len(k[2]) - 1:
                return None
            hold = True
            for f, t in zip(facts, k[2][1:]):
                v = ev.ev(t)
                v = v.const if isinstance(v, I) else None
                if v is None or not f[2:].lstrip("-").isdigit():
                    return None
                hold = hold and (v == int(f[2:])) == (f[:2] == "==")
            if hold:
                return ev.ev(k[2][0])
        return None


def scalars():
    """(method, arguments, value wanted or the set of variants allowed)"""
    for s in (True, False):
        yield "serialize_bool", [B(s)], V("Bool", int(s))
    edge = {0, 1, -1, 9, 127, 128, 255, 256, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 63, -2 ** 63 - 1, 2 ** 127 - 1, -2 ** 127, 2 ** 128 - 1, 2 ** 53 + 1, -2 ** 31, 2 ** 31, 2 ** 32, 2 ** 16, 2 ** 15, -2 ** 15, -128}
    for ty in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"):
        bits = int(ty[1:])
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if ty[0] == "i" else (0, 2 ** bits - 1)
        cuts = sorted({c for c in edge if lo <= c <= hi} | {lo, hi, lo + 1, hi - 1})
        spans = [(c, c) for c in cuts] + [(a + 1, b - 1) for a, b in zip(cuts, cuts[1:]) if a + 1 <= b - 1]
        for a, b in spans:
            if -2 ** 63 <= a and b < 2 ** 64:
                yield "serialize_" + ty, [I(a, b)], V("Number", ("NegInt" if a < 0 else "PosInt", a, b))
            else:
                yield "serialize_" + ty, [I(a, b)], V("String", str(a)) if a == b else "String"
    for m in ("serialize_f32", "serialize_f64"):
        for x in (F({"+fin"}, val=1.5), F({"-fin"}, val=-2.25), F({"+inf"}), F({"-inf"}), F({"+zero"}), F({"-zero"})):
            yield m, [x], "same"
        yield m, [F({"nan"})], "nan"
    for ch in "a!~\n\u00e9\U0001f600":
        yield "serialize_char", [I(ord(ch), ord(ch))], V("String", ch)
    for s in ("", "a", "!t", "null", "~", "1", "\u00e9", "a\nb"):
        yield "serialize_str", [S(s)], V("String", s)
    for n in ("serialize_unit", "serialize_none"):
        yield n, [], V("Null")
    yield "serialize_unit_struct", [S("T")], V("Null")
    for s in ("", "v", "!v"):
        yield "serialize_unit_variant", [S("T"), I(0, 0), S(s)], V("String", s)
    for bs in ([], [0], [255, 0, 7], [128, 127]):
        yield "serialize_bytes", [L([I(b, b) for b in bs])], V("Sequence", [V("Number", ("PosInt", b, b)) for b in bs])


LEAF = [("call", "serialize_bool", [B(True)], V("Bool", 1)), ("call", "serialize_i64", [I(-3, -3)], V("Number", ("NegInt", -3, -3))), ("call", "serialize_u128", [I(7, 7)], V("Number", ("PosInt", 7, 7))), ("call", "serialize_char", [I(33, 33)], V("String", "!")),
        ("call", "serialize_none", [], V("Null")), ("call", "serialize_unit_struct", [S("T")], V("Null")), ("call", "serialize_u128", [I(2 ** 100, 2 ** 100)], V("String", str(2 ** 100))), ("call", "serialize_i128", [I(-2 ** 100, -2 ** 100)], V("String", str(-2 ** 100)))]
LEAF += [("call", "serialize_" + t, [I(5, 5)], V("Number", ("PosInt", 5, 5))) for t in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64")]
LEAF += [("call", "serialize_bytes", [L([I(1, 1)])], V("Sequence", [V("Number", ("PosInt", 1, 1))]))]


def size(t):
    return len(repr(t))


def runs(deep):
    yield from trees(deep)
    for c in LEAF:
        yield c
        for w in wrap(c):
            yield w
            for x in narrow(w):
                yield x
    un = ("unit",)
    for name in ("", "!", "!v", "v w"):
        for c in (un, ("str", "a"), ("seq", "seq", []), ("ntv", "v", un), ("ntv", "", un)):
            if name != "!":
                yield ("ntv", name, c)
                yield ("tv", name, [c])
                yield ("sv", name, [("f", c)])
            yield ("map", True, "entry", [(("text", name), c)])
            yield ("seq", "seq", [("ntv", name or "w", c)])
    some = [un, ("str", "a"), ("text", "!t"), ("text", "!u"), ("text", "x"), ("seq", "seq", [])]
    for hint in (1, 2, 3, False, True):
        for mode in ("entry", "key", "mix"):
            for a in some:
                for b in some:
                    yield ("map", hint, mode, [(a, ("str", "p")), (b, ("str", "q"))])
                yield ("map", hint, mode, [(a, ("str", "p")), (("str", "k"), ("str", "q")), (("str", "a"), ("str", "r"))])
    for c in (un, ("str", "a")):
        yield ("seq", "seq", [c, ("str", "b"), ("str", "c")])
        yield ("seq", "tuple", [c, ("str", "b"), ("str", "c")])
        yield ("seq", "ts", [c, ("str", "b"), ("str", "c")])
        yield ("tv", "v", [c, ("str", "b"), ("str", "c")])
        yield ("struct", [("f", c), ("a", ("str", "b")), ("z", ("str", "c"))])
        yield ("sv", "v", [("f", c), ("a", ("str", "b")), ("z", ("str", "c"))])


def check(ck):
    R = run.analyse(dict(GROUP))
    h = ValueHist(R.entries)
    for e in R.entries:
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut")
        ck.use(e)
    ck.floor("serializer methods", len(h.methods), 60)
    who = lambda m: h.methods.get(("Serializer", "Serializer", m))
    n = 0
    for recv, wrapit in ((SER, False), (Adt("CheckForTag", None, {}), True)):
        for m, args, want in scalars():
            name = f"{recv.name}::{m}"
            if (recv.name, "Serializer", m) not in h.methods:
                ck.undecided(name, "no such method")
                continue
            e = h.methods[recv.name, "Serializer", m]
            n += 1
            try:
                r, _ = h.m(recv, "Serializer", m, *args)
            except Unknown as x:
                ck.undecided(f"scalar:{name}", str(x)[:150])
                continue
            except Panic as x:
                ck.violation(f"{name}:panic", str(x)[:200], e.name)
                continue
            v = r.fields.get("0")
            if wrapit and r.variant == "Ok":
                ok = isinstance(v, Adt) and v.name.rpartition("::")[2] == "MaybeTag"
                if not ok:
                    ck.undecided(f"scalar:{name}", "not the expected result")
                    continue
                ck.obl(v.variant == "NotTag", f"{name}:tag", f"the key {args!r} is taken for a tag", e.name)
                v = v.fields.get("0")
            got = reading(v) if r.variant == "Ok" else ("error", error_kind(v))
            if want == "same":
                w = v.fields.get("0").fields.get("n") if got is not None and isinstance(v, Adt) and v.variant == "Number" else None
                x = w.fields.get("0") if isinstance(w, Adt) else None
                ck.obl((w.variant == "Float" and repr(x) == repr(args[0])) if x is not None else None if got is None else False, name, f"{args[0]!r} becomes {say(got)}", e.name)
            elif want == "nan":
                w = v.fields.get("0").fields.get("n") if isinstance(v, Adt) and v.variant == "Number" else None
                ck.obl((w.variant == "Float") if isinstance(w, Adt) else None if got is None else False, name, f"nan becomes {say(got)}", e.name)
            elif want == "String":
                ck.obl(None if not isinstance(v, Adt) else v.variant == "String", name, f"{args[0]!r} becomes {say(got)}", e.name)
            else:
                ck.obl(None if got is None else got == want, name, f"{args!r} becomes {say(got)} instead of {say(want)}", e.name)
    ck.floor("scalar cases", n, 300)
    bad, n = {}, 0
    budget = run.Budget(400 if ck.deep else 240)
    for t in runs(ck.deep):
        if budget.over():
            ck.undecided("time", "the histories were not all explored")
            break
        n += 1
        wants = []
        for through in (False, True):
            try:
                wants.append(wanted(t, through))
            except Empty:
                wants.append(("error", "EmptyTag"))
        try:
            r = h.tree(t, SER)
        except Unknown as x:
            ck.obl(None, f"history:{str(x)[:70]}", str(x)[:150])
            continue
        except Panic as x:
            got, v = ("panic", str(x)), 0
        else:
            v = r.fields.get("0")
            got = reading(v) if r.variant == "Ok" else ("error", error_kind(v))
        if got is None or got[0] == "error" and got[1] is None:
            ck.obl(None, "history:unread", f"{v!r}"[:150])
            continue
        ok = got in wants
        if ok or got[0] == "error" and got[1] != "EmptyTag" and all(w[0] == "error" for w in wants):
            ck.obl(True, "history")
            if n % 2000 == 1:
                ck.sample(f"{t} -> {say(got)}")
            continue
        top = t[0] + (":" + t[1] if t[0] == "seq" else ":" + t[2] if t[0] == "map" else "")
        k = (got[0] if got[0] != "V" else "value")
        if k not in bad or size(t) < size(bad[k][0]):
            bad[k] = (t, got, wants[0], top)
    for k, (t, got, want, top) in bad.items():
        ck.violation(f"{top}:{k}", f"{t} becomes {say(got)} instead of {say(want)}", "value::Serializer")
    ck.count("histories", n)
    ck.floor("transitions", h.transitions, 500)
    miss = [k for k, e in h.methods.items() if e not in h.seen]
    ck.info["methods not reached"] = [":".join(k) for k in miss][:20]
