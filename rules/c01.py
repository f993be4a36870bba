from scalar import *
import run, time

WHAT = ("The untyped read, the typed reads of bool, every integer and float width, unit and option, and parsing a Number are evaluated on a plain untagged scalar of every lexical class (each word of the schema with its case variants and neighbours, every sign, prefix and digit combination at every width boundary, "
        "every float notation, and every literal the code itself compares with): the callback made and its payload must be those of the core schema.")
ASSUMES = ["texts of one lexical class are treated alike beyond the distinctions the code itself makes with literals, prefixes and the std number parsers", "the std number parsers behave as documented"]
KINDS = {"unit": "visit_unit", "bool": "visit_bool", "float": "visit_f64", "str": "visit_str"}


def is_int(o, n, req=None):
    """the integer n, in a callback that every visitor of integers of the width asked for takes"""
    w = o[0][6:]
    if w not in RANGES or w in ("bool", "char") or o[1] != (n,):
        return False
    return w not in ("u128", "i128") or req in ("u128", "i128") or not -2 ** 63 <= n < 2 ** 64


def untyped_ok(w):
    k, v = untyped(w)
    if k == "int":
        return k, v, lambda o: is_int(o, v) if isinstance(o, tuple) else False
    return k, v, lambda o: isinstance(o, tuple) and o[0] == KINDS[k] and o[1] == (() if k == "unit" else (v,))


def typed_ok(req, w):
    """-> predicate on outcomes for a typed read of the plain untagged text w"""
    err = lambda o: o == "error"
    if req in ("unit", "unit_struct"):
        return (lambda o: o == ("visit_unit", ())) if w == "" or w in NULLS else err
    if req == "option":
        if w == "" or w in NULLS:
            return lambda o: o == ("visit_none", ())
        return lambda o: isinstance(o, tuple) and o[0] == "visit_some"
    if req == "bool":
        b = untyped(w)
        return (lambda o: o == ("visit_bool", (b[1],))) if b[0] == "bool" else err
    if req in INT_T:
        n = int_value(w)
        t = INT_T[req]
        lo, hi = RANGES[t]
        if n is None or not lo <= n <= hi:
            return err
        right = lambda o: is_int(o, n, req) if isinstance(o, tuple) else False
        if t[0] == "u" and w.startswith("-") or req != t and not RANGES[req][0] <= n <= RANGES[req][1]:
            return lambda o: o == "error" or right(o)      # negative zero, or too big for the type asked for
        return right
    f = float_value(w)
    if f is None:
        return err
    right = lambda o: o == ("visit_f64", (f,))
    return (lambda o: o == "error" or right(o)) if leading_zero(w) else right


def check(ck):
    R = run.analyse(dict(SCALAR_GROUP))
    D = DE(ck, R)
    if D.name is None:
        return
    by = {e.name.rsplit("::", 1)[-1]: e for e in D.entries("Deserializer") if e.name.startswith("<&mut ")}
    ws = sorted(set(words()) | literals(R))
    n = 0
    for m in ["any", "bool", "unit", "unit_struct", "option", "f32", "f64"] + list(INT_T):
        e = by.get("deserialize_" + m)
        if e is None or e.error or e.cut:
            ck.undecided(m, "not analysed")
            continue
        ck.use(e)
        ps = narrow(e, D, scalar(None))
        ck.info.setdefault("paths of a plain scalar", {})[m] = len(ps)
        t0 = time.time()
        sub = ws if m in ("any", "bool", "u64", "i64", "u128", "i128", "f64", "unit", "option") else ws[::7]
        sub = [w for i in range(16) for w in sub[i::16]]
        for w in sub:
            if time.time() - t0 > (100 if m == "any" else 12) and n % 8:
                ck.undecided(m, "time")
                continue
            if time.time() - t0 > (180 if m == "any" else 20):
                ck.undecided(m, "time")
                break
            rs = reads(e, D, events(scalar(w)), paths=ps)
            n += 1
            if m == "any":
                k, v, ok = untyped_ok(w)
                decide(ck, f"any:{k}", rs, ok, f"the plain scalar {w!r} is read untyped as {k}" + (f" {v}" if k in ("int", "bool", "float") else ""))
            else:
                decide(ck, m, rs, typed_ok(m, w), f"a read of {m} from the plain scalar {w!r}")
    ck.floor("scalar reads", n, 30000)
    number(ck, ws)


def number(ck, ws):
    R = run.analyse(dict(entries=["number|<Number as FromStr>*"], max_paths=40000))
    n = 0
    for e in R.entries:
        if e.error or e.cut:
            ck.undecided("Number", "not analysed")
            continue
        ck.use(e)
        text = e.params[0][0]
        t0 = time.time()
        for w in [w for i in range(16) for w in ws[i::16]]:
            if time.time() - t0 > 150:
                ck.undecided("Number", "time")
                break
            env = {text: S(w)}
            for t, k in e.terms.items():
                if k[0] == "d" and k[1] == text:
                    env[t] = S(w)
            f = dict(FNS)
            f.update(STR_FNS)
            ev = Ev(e, env, fns=f)
            n += 1
            rs = [(fz, p, ch) for fz, p, ch in ev.outcomes(("return", "panic"))]
            want = number_want(w)
            vs = []
            for fz, p, ch in rs:
                ev.at(ch)
                vs.append((fz, number_got(ev.ev(p.val)) if p.end == "return" else "panic", p))
            if not vs or any(v is None for _, v, _ in vs):
                ck.undecided("Number", w)
                continue
            bad = [x for x in vs if not (want == x[1] or want is None)]
            if bad and (len(bad) == len(vs) or any(x[0] in ("yes", "free") for x in bad)):
                ck.obl(False, "Number:parse", f"parsing the Number {w!r} should give {want or 'an error'} but gives {bad[0][1]}", f"{e.name} {bad[0][2].span}")
            elif bad:
                ck.undecided("Number", w)
            else:
                ck.obl(True, "Number:parse")
    ck.floor("number texts", n, 1000)


def number_want(w):
    n = int_value(w)
    if n is not None and -2 ** 63 <= n < 2 ** 64:
        return ("int", n)
    if n is not None:
        return None       # out of range: an error or a float
    if leading_zero(w):
        return "error"
    f = float_value(w)
    return "error" if f is None else ("float", f)


def number_got(v):
    if not isinstance(v, Adt):
        return None
    if v.variant == "Err":
        return "error"
    if v.variant == "Ok":
        x = v.fields.get("0")
        while isinstance(x, Adt) and not x.variant and len(x.fields) == 1:
            x = next(iter(x.fields.values()))
        if isinstance(x, Adt) and x.variant:
            x = x.fields.get("0")
        if isinstance(x, I) and x.const is not None:
            return ("int", x.const)
        if isinstance(x, F):
            f = payload(x)
            return None if f is None else ("float", f)
    return None
