"""Abstract inputs for the crate's value types, and helpers shared by the rules."""
from absval import *


def N(variant, v):
    return Adt("N", variant, {"0": v})


def Num(n):
    return Adt("Number", None, {"n": n})


def number_regions(consts=()):
    """(label, abstract Number, kind, payload) covering every Number: PosInt regions, NegInt regions, float classes"""
    out = []
    for lo, hi in int_regions("u64", consts):
        out.append((f"PosInt[{lo},{hi}]", "pos", I(lo, hi, "x")))
    for lo, hi in int_regions("i64", consts):
        if hi < 0:
            out.append((f"NegInt[{lo},{hi}]", "neg", I(lo, hi, "x")))
    for c in FCLASSES:
        out.append((f"Float[{c}]", "flt", F(c, "x" if c != "nan" else "nan")))
    return out


def mknum(kind, payload):
    return Num(N({"pos": "PosInt", "neg": "NegInt", "flt": "Float"}[kind], payload))


VALUE_VARIANTS = ("Null", "Bool", "Number", "String", "Sequence", "Mapping", "Tagged")


def Val(variant, payload=None):
    return Adt("Value", variant, {"0": payload} if variant != "Null" else {})


def tagged(v):
    """Value::Tagged(Box<TaggedValue{tag, value: v}>)"""
    return Val("Tagged", Adt("TaggedValue", None, {"tag": Adt("Tag", None, {"string": X("tag")}), "value": v}))


def opt(v):
    """classify an abstract Option: ('Some', payload) / ('None',) / None if unknown"""
    if isinstance(v, Adt) and v.variant in ("Some", "None"):
        return (v.variant, v.fields.get("0"))
    return None


def param(e, name_or_i):
    if isinstance(name_or_i, int):
        return e.params[name_or_i][0]
    for t, _ in e.params:
        k = e.terms[t]
        if k[0] == "y" and k[1] == "param" and k[3] == name_or_i:
            return t
    return None


def results(e, env, order=None, fns=None, ends=("return",)):
    """abstract results of the feasible paths: [(feasible, path, Ev positioned, value)]"""
    ev = Ev(e, env, order, fns)
    out = []
    for f, p, ch in ev.outcomes(ends):
        ev.at(ch)
        v = ev.ev(p.val) if p.end == "return" else None
        out.append((f, p, v, ch))
    return ev, out


def judge(ck, key, e, rs, pred, what):
    """pred(value, path) -> True/False/None.  A violation needs a path that is feasible for the whole
    region (or the only possible ones) and a definite wrong outcome."""
    if not rs:
        ck.undecided(key, "no feasible path")
        return
    sure = [r for r in rs if r[0] in ("yes", "free")]
    bad = None
    unknown = False
    good = 0
    for f, p, v, ch in rs:
        r = pred(v, p)
        if r is False:
            if f in ("yes", "free"):
                bad = (v, p)
            else:
                unknown = True
                bad = bad or None
        elif r is None:
            unknown = True
        else:
            good += 1
    if bad is None and not sure and good == 0:
        # every possibly taken path is definitely wrong
        vs = [pred(v, p) for f, p, v, ch in rs]
        if all(x is False for x in vs):
            bad = (rs[0][2], rs[0][1])
    if bad:
        ck.violation(key, f"{what}; got {bad[0]}", f"{e.name} {bad[1].span}")
    elif unknown:
        ck.undecided(key, what)
    else:
        ck.obl(True, key)


def sure(f, ok):
    """a wrong outcome counts only on a path that some input of the region certainly takes"""
    return None if ok is False and f not in ("yes", "free") else ok
