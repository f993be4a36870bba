from absval import *
from model import *
import run

WHAT = ("For every primitive width, the sign class, boundary class and float class of the input is pushed through the constructors, accessors, conversions, comparisons and "
        "serialization of Number; each must keep the mathematical value, choose the representation by sign, and refuse what does not fit.")
ASSUMES = ["std integer casts, comparisons and float classification have their documented meaning"]

INTS = ["i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"]


def regions(ty, e):
    return int_regions(ty, int_consts(e))


def expect_num(val):
    """the abstract Number/N inside a result value"""
    while isinstance(val, Adt) and val.name in ("Result", "Option") and val.variant in ("Ok", "Some"):
        val = val.fields.get("0")
    if isinstance(val, Adt) and val.name == "Value" and val.variant == "Number":
        val = val.fields.get("0")
    if isinstance(val, Adt) and val.name == "Number":
        val = next(iter(val.fields.values()), None)
    return val if isinstance(val, Adt) and val.variant else None


def right_number(v, lo, hi):
    n = expect_num(v)
    if n is None:
        if isinstance(v, Adt) and v.variant in ("Err", "None"):
            return False
        return None
    pay = n.fields.get("0")
    want = "NegInt" if hi < 0 else "PosInt"
    if n.variant in ("PosInt", "NegInt", "Float"):
        if n.variant != want:
            return False
        if isinstance(pay, I):
            if (pay.lo, pay.hi) != (lo, hi):
                return False
            return True if lo == hi or pay.src == "x" else None if pay.src is None else False
    return None


def right_float(v, c):
    n = expect_num(v)
    if n is None:
        return False if isinstance(v, Adt) and v.variant in ("Err", "None") else None
    pay = n.fields.get("0")
    if n.variant in ("PosInt", "NegInt"):
        return False
    if isinstance(pay, F):
        if c == "nan":
            return pay.classes == {"nan"} and (pay.src is None or pay.src in ("x", "canonical-nan"))
        return pay.classes == {c} and pay.src == "x"
    return None


def constructor(ck, e, i, ty, label):
    p = e.params[i][0]
    if ty in ("f32", "f64"):
        for c in FCLASSES:
            ev, rs = results(e, {p: F(c, "x")})
            judge(ck, f"{label}:{c}", e, rs, lambda v, _p: right_float(v, c), f"{e.name} of a {c} float must be the float Number of the same value")
    else:
        for lo, hi in regions(ty, e):
            ev, rs = results(e, {p: I(lo, hi, "x")})
            judge(ck, f"{label}:{lo}..{hi}", e, rs, lambda v, _p: right_number(v, lo, hi), f"{e.name} of {lo}..{hi} must be the {'negative' if hi < 0 else 'non-negative'} Number of the same value")


def accessor(ck, e, env_of, label, spec):
    consts = [c for c in int_consts(e)]
    for name, kind, pay in number_regions(consts):
        ev, rs = results(e, env_of(mknum(kind, pay)))
        judge(ck, f"{label}:{name}", e, rs, lambda v, p: spec(kind, pay, v), f"{e.name} on {name}")


def is_bool(v, want):
    if isinstance(v, I) and v.const is not None:
        return bool(v.const) == want
    return None


def want_some(v, src, ty=None):
    o = opt(v)
    if o is None:
        return None
    if o[0] == "None":
        return False
    p = o[1]
    if isinstance(p, (I, F)):
        return p.src == src
    return None


def want_none(v):
    o = opt(v)
    return None if o is None else o[0] == "None"


I64MAX = 2 ** 63 - 1


def fits_i64(kind, pay):
    return kind == "neg" or (kind == "pos" and pay.hi <= I64MAX)


SPEC = {
    "is_i64": lambda k, p, v: is_bool(v, fits_i64(k, p)),
    "is_u64": lambda k, p, v: is_bool(v, k == "pos"),
    "is_f64": lambda k, p, v: is_bool(v, k == "flt"),
    "as_i64": lambda k, p, v: want_some(v, "x") if fits_i64(k, p) else want_none(v),
    "as_u64": lambda k, p, v: want_some(v, "x") if k == "pos" else want_none(v),
    "as_f64": lambda k, p, v: as_f64(k, p, v),
    "is_nan": lambda k, p, v: is_bool(v, k == "flt" and p.classes == {"nan"}),
    "is_infinite": lambda k, p, v: is_bool(v, k == "flt" and p.classes <= {"-inf", "+inf"}),
    "is_finite": lambda k, p, v: is_bool(v, k != "flt" or not (p.classes & {"nan", "-inf", "+inf"})),
}


def as_f64(k, p, v):
    o = opt(v)
    if o is None:
        return None
    if o[0] == "None":
        return False
    x = o[1]
    if not isinstance(x, F):
        return None
    if k == "flt":
        if p.classes == {"nan"}:
            return x.classes == {"nan"}
        return x.src == "x"
    return x.src in ("x", "round(x)")


def check(ck):
    A, V = run.analyse(
        dict(entries=["number|*"], max_paths=2000),
        dict(entries=["value::partial_eq|*", "value|Value::as_*", "value|Value::is_*", "value::from|*", "value::de::*|<*Visitor>::visit_*", "value::de|<Value as Deserializer>::deserialize_*", "value::de|<&Value as Deserializer>::deserialize_*"],
             opaque=["value::de::visit_sequence*", "value::de::visit_mapping*"], max_paths=2000))
    # constructors
    n = 0
    for ty in INTS + ["f32", "f64"]:
        e = ck.need(A, f"<Number as From<{ty}>>::from")
        if e:
            constructor(ck, e, 0, ty, f"From<{ty}>")
            n += 1
    ck.floor("Number constructors", n, 12)
    # accessors
    n = 0
    for m, spec in SPEC.items():
        e = ck.need(A, f"Number::{m}")
        if e:
            accessor(ck, e, lambda num: {e.params[0][0]: num}, f"Number::{m}", spec)
            n += 1
        if m in ("is_i64", "is_u64", "is_f64", "as_i64", "as_u64", "as_f64"):
            e2 = ck.need(V, f"Value::{m}")
            if e2:
                n += 1
                accessor(ck, e2, lambda num: {e2.params[0][0]: Val("Number", num)}, f"Value::{m}", spec)
                accessor(ck, e2, lambda num: {e2.params[0][0]: tagged(Val("Number", num))}, f"Value::{m}(tagged)", spec)
    ck.floor("Number/Value accessors", n, 13)
    # visitors building numbers
    n = 0
    for R in (A, V):
        for e in R.entries:
            last = e.name.rsplit("::", 1)[-1]
            if e.trait.endswith("de::Visitor") and last in ("visit_i64", "visit_u64", "visit_f64", "visit_f32", "visit_i8", "visit_i16", "visit_i32", "visit_u8", "visit_u16", "visit_u32", "visit_i128", "visit_u128") and ("Value" in e.ret_ty or "Number" in e.ret_ty or "Self" in e.ret_ty or True):
                if not (e.module.startswith("number") or "<Value as Deserialize>" in e.module):
                    continue
                ck.use(e)
                n += 1
                ty = last[6:]
                if ty.endswith("128"):
                    wide(ck, e, 1, ty)
                else:
                    constructor(ck, e, 1, ty, f"{e.module.split('[')[-1].split(' ')[0]}:{e.name}")
    ck.floor("number visitors", n, 6)
    # serialization and deserialization of a Number hand over the same value
    e = ck.need(A, "<Number as Serialize>::serialize")
    if e:
        handover(ck, e, "serialize_", lambda num: {e.params[0][0]: num}, "Serialize")
    n = 0
    for self_ty in ("Number", "&Number"):
        for e in A.find(lambda s: s.startswith(f"<{self_ty} as Deserializer>::deserialize_")):
            ck.use(e)
            n += 1
            if e.cut or e.error:
                continue
            handover(ck, e, "visit_", lambda num: {e.params[0][0]: num}, e.name)
    ck.floor("Deserializer for Number methods", n, 60)
    n = 0
    for self_ty in ("Value", "&Value"):
        for m in ("any", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64"):
            e = ck.need(V, f"<{self_ty} as Deserializer>::deserialize_{m}")
            if e:
                n += 1
                handover(ck, e, "visit_", lambda num: {e.params[0][0]: Val("Number", num)}, e.name)
                if m != "any":
                    handover(ck, e, "visit_", lambda num: {e.params[0][0]: tagged(Val("Number", num))}, e.name + "(tagged)")
    ck.floor("numeric Deserializer for Value methods", n, 26)
    # Value == primitive
    n = 0
    for self_ty in ("Value", "&Value", "&mut Value"):
        for ty in INTS + ["f32", "f64"]:
            e = ck.need(V, f"<{self_ty} as PartialEq<{ty}>>::eq")
            if e:
                n += 1
                compare(ck, e, ty, self_ty)
    ck.floor("Value == primitive", n, 36)
    # Value::from(primitive)
    n = 0
    for ty in INTS + ["f32", "f64"]:
        e = ck.need(V, f"<Value as From<{ty}>>::from")
        if e:
            n += 1
            constructor(ck, e, 0, ty, f"Value::from<{ty}>")
    ck.floor("Value::from", n, 12)


def wide(ck, e, i, ty):
    """a 128-bit visitor: exact when it fits 64 bits, an error (or its decimal string) otherwise"""
    p = e.params[i][0]
    for lo, hi in regions(ty, e):
        ev, rs = results(e, {p: I(lo, hi, "x")})
        fits = -2 ** 63 <= lo and hi < 2 ** 64

        def pred(v, _p):
            n = expect_num(v)
            if n is not None and n.variant in ("PosInt", "NegInt"):
                return right_number(v, lo, hi)
            if n is not None and n.variant == "Float":
                return False
            if isinstance(v, Adt) and v.variant == "Err":
                return not fits
            return None
        judge(ck, f"{e.name}:{lo}..{hi}", e, rs, pred, f"{e.name} of {lo}..{hi}")


def handover(ck, e, prefix, env_of, label):
    kinds = {"u8": "i", "u16": "i", "u32": "i", "u64": "i", "u128": "i", "i8": "i", "i16": "i", "i32": "i", "i64": "i", "i128": "i", "f32": "f", "f64": "f"}
    for name, kind, pay in number_regions(int_consts(e)):
        ev, rs = results(e, env_of(mknum(kind, pay)))
        if not rs:
            ck.undecided(f"{label}:{name}", "no feasible path")
            continue

        def pred(v, p):
            ev2 = ev
            calls = [c for c in p.calls() if c.last.startswith(prefix)]
            if not calls:
                # refused: allowed only with an error result
                if isinstance(v, Adt) and v.variant == "Ok":
                    return False
                return None if not (isinstance(v, Adt) and v.variant == "Err") else False
            c = calls[-1]
            ty = c.last[len(prefix):]
            if ty not in kinds:
                return None
            a = ev2.ev(c.args[1] if len(c.args) > 1 else c.args[0])
            if not isinstance(a, (I, F)):
                return None
            if (kinds[ty] == "f") != (kind == "flt"):
                return False
            if kind == "flt" and pay.classes == {"nan"}:
                return a.classes == {"nan"} if isinstance(a, F) else False
            if isinstance(a, I):
                return a.src == "x" and (a.lo, a.hi) == (pay.lo, pay.hi)
            return a.src == "x"
        out = []
        for f, p, v, ch in rs:
            ev.at(ch)
            r = pred(v, p)
            out.append((f, p, v, r))
        judge(ck, f"{label}:{name}", e, [(f, p, (v, r), None) for f, p, v, r in out], lambda vr, p: vr[1], f"{e.name} of {name} must hand the stored value over unchanged")


def compare(ck, e, ty, self_ty):
    ps, po = e.params[0][0], e.params[1][0]
    if ty in ("f32", "f64"):
        cases = []
        for a in FCLASSES:
            for b in FCLASSES:
                same = a == b
                if a == "nan" or b == "nan":
                    cases.append((("flt", F(a, "x" if a != "nan" else "nan")), F(b, "y"), False, {}))
                elif same:
                    cases.append((("flt", F(a, "x")), F(b, "x"), True, {}))
                    if a.endswith("fin"):
                        cases.append((("flt", F(a, "x")), F(b, "y"), False, {("x", "y"): "<"}))
                elif {a, b} == {"-0", "+0"}:
                    cases.append((("flt", F(a, "x")), F(b, "y"), True, {}))
                else:
                    cases.append((("flt", F(a, "x")), F(b, "y"), False, {}))
    else:
        cases = []
        lo, hi = RANGES[ty]
        for plo, phi in int_regions(ty, int_consts(e)):
            prim = I(plo, phi, "y")
            # equal
            cases.append((("neg" if phi < 0 else "pos", I(plo, phi, "x")), I(plo, phi, "x"), True, {}))
            # different, same region
            if plo != phi:
                cases.append((("neg" if phi < 0 else "pos", I(plo, phi, "x")), prim, False, {("x", "y"): "<"}))
                cases.append((("neg" if phi < 0 else "pos", I(plo, phi, "x")), prim, False, {("x", "y"): ">"}))
            # other regions
            for name, kind, pay in number_regions(int_consts(e)):
                if kind != "flt" and (pay.hi < plo or pay.lo > phi):
                    cases.append(((kind, pay), prim, False, {}))
            cases.append((("flt", F("+fin", "x")), prim, False, {}))
    for (kind, pay), prim, want, order in cases:
        for wrap in (lambda v: v, tagged):
            ev, rs = results(e, {ps: wrap(Val("Number", mknum(kind, pay))), po: prim}, order)
            judge(ck, f"{self_ty}=={ty}:{kind}{pay}:{prim}:{want}", e, rs, lambda v, p: is_bool(v, want), f"{e.name}: {kind} {pay} == {prim} must be {want}")
