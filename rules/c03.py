from serproto import *
from scalar import untyped, float_value, mkfloat
import struct

WHAT = ("Writing unit, none, booleans, every integer width at its boundaries and both float widths at every class and sign is evaluated on the extracted paths (top level, under a tag, as element and as key), and displaying a Number on each of its variants: "
        "the text must be plain and be the word or decimal text that the core schema reads back as the same value.")
ASSUMES = ["itoa writes the exact decimal digits of an integer and ryu a decimal text that reads back as the same float", "values between the evaluated boundaries of a width are treated like their neighbours"]
U = ("unit",)


def shortest(v, f32):
    """what ryu writes for a finite float"""
    if not f32:
        s = repr(v)
    else:
        for n in range(1, 10):
            s = "%.*g" % (n, v)
            if struct.unpack("f", struct.pack("f", float(s)))[0] == v:
                break
        s = repr(float(s))
    return s.replace("e+", "e")


def _fmt(ev, av, args, c):
    """itoa::Buffer::format, ryu::Buffer::format and format_finite"""
    if len(av) != 2:
        return None
    v, ty = av[1], (ev.e.ty(args[1]) or "")
    if c.name.startswith("itoa") and isinstance(v, I) and v.const is not None:
        return S(str(v.const))
    if c.name.startswith("ryu") and isinstance(v, F):
        cl = next(iter(v.classes)) if len(v.classes) == 1 else None
        if c.last == "format" and cl in ("nan", "+inf", "-inf"):
            return S({"nan": "NaN", "+inf": "inf", "-inf": "-inf"}[cl])
        if v.val is not None and cl not in ("nan", "+inf", "-inf"):
            return S(shortest(v.val, ty == "f32"))
        if cl in ("nan", "+inf", "-inf"):
            return S("garbage for a float that is not finite")


def _tostring(sim):
    def f(ev, av, at, t):
        v = av[0] if av else None
        if isinstance(v, F) and len(v.classes) == 1:
            cl = next(iter(v.classes))
            if cl in ("nan", "+inf", "-inf"):
                return S({"nan": "NaN", "+inf": "inf", "-inf": "-inf"}[cl])
            if v.val is not None:
                s = shortest(v.val, "f32" in (ev.e.ty(at[0]) or ""))
                if "e" in s:
                    s = "%f" % v.val
                return S(s[:-2] if s.endswith(".0") else s)
        return sim._display(ev, av, at, t)
    return f


def floats(f32):
    yield "nan", F({"nan"}, "x", 1.0)
    yield "nan", F({"nan"}, "x", -1.0)
    yield "+inf", F({"+inf"})
    yield "-inf", F({"-inf"})
    vs = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 100.0, 1e16, 1e21, 1e-5, 1e-7]
    vs += [struct.unpack("f", struct.pack("f", x))[0] for x in (0.1, 3.4028235e38, 1.17549435e-38, 1e-45, 16777217.0)] if f32 else [0.1, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 9007199254740993.0, 1.1, -123456.789]
    for v in vs:
        if f32:
            v = struct.unpack("f", struct.pack("f", v))[0]
        yield ("float", v), mkfloat(v)


def ints(ty):
    lo, hi = RANGES[ty]
    return sorted({x for x in (lo, lo + 1, -129, -128, -1, 0, 1, 7, 8, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, hi - 1, hi) if lo <= x <= hi})


def jobs():
    """(label, tree, predicate on the text, wanted)"""
    yield "unit", U, lambda s: s == "null", "null"
    yield "none", Leaf(("call", "serialize_none", [])), lambda s: s == "null", "null"
    yield "unit_struct", Leaf(("call", "serialize_unit_struct", [S("T")])), lambda s: s == "null", "null"
    for b, w in ((True, "true"), (False, "false")):
        yield "bool", Leaf(("call", "serialize_bool", [B(b)])), lambda s, w=w: s == w, w
    for ty in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"):
        for n in ints(ty):
            yield ty, Leaf(("call", "serialize_" + ty, [I(n, n)])), lambda s, n=n: s == str(n), str(n)
    for ty in ("f32", "f64"):
        for w, v in floats(ty == "f32"):
            yield ty, Leaf(("call", "serialize_" + ty, [v])), lambda s, w=w, ty=ty: float_ok(s, w, ty == "f32"), word(w)


def word(w):
    return {"nan": ".nan", "+inf": ".inf", "-inf": "-.inf"}.get(w) or repr(w[1])


def float_ok(s, w, f32):
    if isinstance(w, str):
        return s == word(w)
    k, v = untyped(s)
    if k != "float" or not isinstance(v, tuple):
        return False
    x = float(v[1])
    if f32:
        try:
            x = struct.unpack("f", struct.pack("f", x))[0]
        except OverflowError:
            return False
    return x == w[1] and repr(x) == repr(w[1])


def contexts(t):
    yield t
    yield ("ntv", "v", t)
    yield ("seq", "seq", [t])
    yield ("map", True, "entry", [(t, ("seq", "seq", []))])


def texts_written(e, p, ev, fmt):
    """what a path writes to the formatter, in order; None where not known"""
    out = []
    for c in p.calls():
        if c.last in ("write_str", "write_char", "pad") and len(c.args) == 2 or c.last in ("write_fmt",):
            v = ev.ev(c.args[1])
            if isinstance(v, I) and v.const is not None and c.last == "write_char":
                v = S(chr(v.const))
            out.append(v.s if isinstance(v, S) else None)
        elif c.last == "fmt" and len(c.args) == 2:
            out.append(None)
    return out


def check(ck):
    R, = (run.analyse(SER_GROUP),)
    sim = SerSim(R)
    sim.fns["call:format"] = sim.fns["call:format_finite"] = lambda ev, av, a, c: _fmt(ev, av, a, c)
    sim.fns["to_string"] = _tostring(sim)
    sim.fns["call:to_string"] = lambda ev, av, a, c: _tostring(sim)(ev, av, a, c.ret)
    for e in sim.by.values():
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut")
        ck.use(e)
    ck.floor("serializer methods", len(sim.methods), 40)
    try:
        st0 = sim.initial()
    except Unknown as x:
        ck.undecided("initial", f"{x}")
        st0 = None
    n = 0
    for label, t, pred, want in jobs() if st0 is not None else ():
        e = sim.methods.get(("Serializer", "serialize_unit" if t == U else t[1]))
        if e is None:
            ck.violation(f"anchor:{label}", f"the serializer has no method for {label}")
            continue
        for ctx in contexts(t):
            try:
                evs = sim.events(sim.drive(ctx, st0))
            except Fail as f:
                ck.obl(False if f.kind and f.kind != "SerializeNestedEnum" else None, f"{label}:fails", f"writing {label} {want} fails with {f.kind}", f"{e.name} {e.span}")
                continue
            except Panic as f:
                ck.obl(False, f"{label}:panic", f"writing {label} {want} panics: {f}", f"{e.name} {e.span}")
                continue
            except Unknown as f:
                ck.obl(None, f"{label}:unknown", f"{f}"[:160])
                continue
            n += 1
            sc = [x for x in evs if x[0] == "scalar"]
            if len(sc) != 1:
                ck.obl(None, f"{label}:scalars")
                continue
            x = sc[0]
            ck.obl(None if not isinstance(x[2], str) else pred(x[2]), f"{label}:text", f"{label} {want} is written as {x[2]}" if isinstance(x[2], str) else f"what is written for {label} {want} is not determined", f"{e.name} {e.span}")
            ck.obl(None if x[3] is None else x[3] == "Plain", f"{label}:style", f"{label} {want} is written {x[3]}", f"{e.name} {e.span}")
    ck.count("values written", n)
    # displayed numbers
    N = run.analyse(dict(entries=["number|<Number as Display>::fmt"], max_paths=3000))
    e = ck.need(N, "<Number as Display>::fmt", "number")
    if e is None:
        return
    payload = {}
    for t, k in e.terms.items():
        if k[0] == "D" and e.ty(k[1]) == "N" and len(k) > 2:
            payload["N"] = k[1]
    if "N" not in payload:
        ck.undecided("Display", "the number's variants are not seen")
        return
    cases = [("PosInt", I(n, n), lambda s, n=n: s == str(n), str(n)) for n in ints("u64")] + [("NegInt", I(n, n), lambda s, n=n: s == str(n), str(n)) for n in ints("i64") if n < 0]
    cases += [("Float", v, lambda s, w=w: float_ok(s, w, False), word(w)) for w, v in floats(False)]
    m = 0
    for var, v, pred, want in cases:
        fns = dict(sim.fns)
        ev = Ev(e, {payload["N"]: Adt("N", var, {"0": v})}, fns=fns)
        for p in e.paths:
            f = ev.feasible(p)
            if f == "no":
                continue
            if p.end != "return":
                ck.obl(False if f == "yes" and p.end == "panic" else None, f"Display:{var}:panic", f"displaying the number {want} panics", f"{e.name} {p.span}")
                continue
            ws = texts_written(e, p, ev, None)
            if not ws or None in ws:
                ck.obl(None, f"Display:{var}", f"what is displayed for {want} is not determined")
                continue
            m += 1
            s = "".join(ws)
            ck.obl(pred(s) if f == "yes" or pred(s) else None, f"Display:{var}:text", f"the number {want} is displayed as {s}", f"{e.name} {p.span}")
    ck.count("numbers displayed", m)
    ck.floor("values", len(list(jobs())), 100)
