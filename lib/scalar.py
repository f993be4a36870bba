"""One scalar event read by the streaming deserializer: the transfer functions of its deserialize_* methods evaluated
on an abstract event (text, style, tag), and the YAML core schema they are compared with."""
import re, unicodedata
from absval import *
from sim import *
from destate import *
import fmtargs

INT_T = {"u8": "u64", "u16": "u64", "u32": "u64", "u64": "u64", "u128": "u128", "i8": "i64", "i16": "i64", "i32": "i64", "i64": "i64", "i128": "i128"}


# ---- std
def radix_parse(s, radix, ty):
    """what <ty>::from_str_radix does: int or None"""
    neg = False
    if s[:1] == "+":
        s = s[1:]
    elif s[:1] == "-" and ty[0] == "i":
        neg, s = True, s[1:]
    if not s or not s.isascii() or not s.isalnum():
        return None
    n = 0
    for ch in s.lower():
        d = int(ch, 36)
        if d >= radix:
            return None
        n = n * radix + d
    n = -n if neg else n
    lo, hi = RANGES[ty]
    return n if lo <= n <= hi else None


FLOAT = re.compile(r"[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)\Z", re.I | re.A)


def float_parse(s):
    if not FLOAT.match(s):
        return None
    v = float(s)
    return mkfloat(v, s.startswith("-"))


def mkfloat(v, neg=None):
    if v != v:
        return F("nan", "x")
    if v in (float("inf"), float("-inf")):
        return F("+inf" if v > 0 else "-inf")
    if v == 0:
        return F("-0" if str(v).startswith("-") else "+0", None, v)
    return F("+fin" if v > 0 else "-fin", None, v)


def okerr(v, mk):
    return Adt("Result", "Err", {"0": X("parse error")}) if v is None else Adt("Result", "Ok", {"0": mk(v)})


def _radix(ev, av, at, t):
    if len(av) == 2 and isinstance(av[0], S) and isinstance(av[1], I) and av[1].const is not None:
        ty = next((n for n in RANGES if (ev.e.ty(t) or "").startswith("Result<%s," % n)), None)
        if ty:
            return okerr(radix_parse(av[0].s, av[1].const, ty), lambda n: I(n, n))


def _parse(ev, av, at, t):
    if not av or not isinstance(av[0], S):
        return None
    ty = ev.e.ty(t) or ""
    for n in RANGES:
        if ty.startswith("Result<%s," % n) and n not in ("bool", "char"):
            return okerr(radix_parse(av[0].s, 10, n), lambda n: I(n, n))
    if ty.startswith("Result<f64,"):
        return okerr(float_parse(av[0].s), lambda v: v)
    if ty.startswith("Result<bool,"):
        return okerr({"true": 1, "false": 0}.get(av[0].s), lambda n: I(n, n))


def _utf8(ev, av, at, t):
    if av and isinstance(av[0], S):
        return Adt("Result", "Ok", {"0": av[0]})
    if av and isinstance(av[0], X) and av[0].name == "not utf8":
        return Adt("Result", "Err", {"0": X("utf8 error")})


def _items(ev, av, at, t):
    if av and isinstance(av[0], S):
        return L([I(b, b) for b in av[0].s.encode()])


def _chars(ev, av, at, t):
    if av and isinstance(av[0], S):
        return L([I(ord(c), ord(c)) for c in av[0].s])


def lambda_of(e, t):
    """(bound term, body) of a closure argument"""
    k = e.terms.get(t)
    while k and k[0] in ("S", "v", "d"):
        t = k[2] if k[0] == "S" else k[1]
        k = e.terms.get(t)
    if not k or k[0] != "a" or base(k[1])[1] != "lambda":
        return None
    body = k[2][0]
    b = [x for x in e.subterms(body) if e.terms[x][0] == "a" and e.terms[x][1].startswith("bound0") or e.terms[x][0] in ("y", "k") and "bound0" in str(e.terms[x][1])]
    return (b, body)


def _quant(want):
    def f(ev, av, at, t):
        av = [aslist(av[0])] + av[1:] if av else av
        if len(av) < 2 or not isinstance(av[0], L):
            return None
        lb = lambda_of(ev.e, at[1])
        out = []
        for x in av[0].xs:
            r = apply1(ev, lb, at[1], x)
            if r is None:
                return None
            out.append(bool(r.const))
        return B(all(out) if want == "all" else any(out))
    return f


def apply1(ev, lb, t, x):
    """apply a predicate term to one element"""
    e = ev.e
    if lb:
        sub = Ev(e, {**ev.env, **{b: x for b in lb[0]}}, ev.order, ev.fns)
        sub.choice = dict(ev.choice)
        r = sub.ev(lb[1])
    else:
        k = e.terms.get(t)
        name = str(k[1]) if k and k[0] in ("k", "z", "a", "fn") else ""
        r = None
        for n, g in CTYPE.items():
            if re.search(r"\b" + n + r"\b", name) or re.search(r"\b" + n + r"\b", e.ty(t) or ""):
                r = B(g(x.const)) if isinstance(x, I) and x.const is not None else None
    return r if isinstance(r, I) and r.const is not None else None


CTYPE = {"is_ascii_digit": lambda c: 48 <= c <= 57, "is_ascii_hexdigit": lambda c: chr(c) in "0123456789abcdefABCDEF", "is_ascii_alphabetic": lambda c: chr(c).isascii() and chr(c).isalpha(),
         "is_ascii_alphanumeric": lambda c: chr(c).isascii() and chr(c).isalnum(), "is_ascii_punctuation": lambda c: c < 128 and chr(c).isprintable() and not chr(c).isalnum() and c != 32,
         "is_ascii_whitespace": lambda c: c in (9, 10, 12, 13, 32), "is_ascii_uppercase": lambda c: 65 <= c <= 90, "is_ascii_lowercase": lambda c: 97 <= c <= 122, "is_numeric": lambda c: chr(c).isnumeric(), "is_alphabetic": lambda c: chr(c).isalpha(), "is_ascii_control": lambda c: c < 32 or c == 127,
         "is_uppercase": lambda c: chr(c).isupper(), "is_lowercase": lambda c: chr(c).islower(), "is_whitespace": lambda c: chr(c).isspace() and not 0x1c <= c <= 0x1f, "is_control": lambda c: unicodedata.category(chr(c)) == "Cc",
         "is_alphanumeric": lambda c: chr(c).isalpha() or chr(c).isnumeric(), "is_ascii_graphic": lambda c: 33 <= c <= 126, "is_ascii": lambda c: c < 128}


def _ctype(n):
    g = CTYPE[n]
    return lambda ev, av, at, t: B(g(av[0].const)) if av and isinstance(av[0], I) and av[0].const is not None else None


def _split_first(ev, av, at, t):
    if av and isinstance(av[0], S):
        b = av[0].s.encode()
        return Some(Adt("tuple", None, {"0": I(b[0], b[0]), "1": S(b[1:].decode("utf8", "replace"))})) if b else NONE


def _format(ev, av, at, t):
    ps = fmtargs.arguments(ev.e, at[0])
    if ps is None:
        return None
    xs = fmtargs.texts(ev, ps)
    return S("".join(xs)) if all(x is not None for x in xs) else None


def _cmpcase(ev, av, at, t):
    if len(av) == 2 and isinstance(av[0], S) and isinstance(av[1], S):
        return B(av[0].s.lower() == av[1].s.lower())


def _low(ev, av, at, t):
    return S(av[0].s.lower()) if av and isinstance(av[0], S) else None


def _up(ev, av, at, t):
    return S(av[0].s.upper()) if av and isinstance(av[0], S) else None


def _trim(ev, av, at, t):
    return S(av[0].s.strip()) if len(av) == 1 and isinstance(av[0], S) else None


def _find(ev, av, at, t):
    if len(av) == 2 and isinstance(av[0], S):
        b = av[1]
        p = [b.s] if isinstance(b, S) else [chr(b.const)] if isinstance(b, I) and b.const is not None else None
        if p:
            i = av[0].s.find(p[0])
            return NONE if i < 0 else Some(I(len(av[0].s[:i].encode()), len(av[0].s[:i].encode())))


def _replace(ev, av, at, t):
    if len(av) == 3 and all(isinstance(x, S) for x in av):
        return S(av[0].s.replace(av[1].s, av[2].s))
    if len(av) == 3 and isinstance(av[0], S) and isinstance(av[1], I) and av[1].const is not None and isinstance(av[2], S):
        return S(av[0].s.replace(chr(av[1].const), av[2].s))


def _getb(ev, av, at, t):
    if len(av) == 2 and isinstance(av[0], S) and isinstance(av[1], I) and av[1].const is not None:
        b = av[0].s.encode()
        return Some(I(b[av[1].const], b[av[1].const])) if av[1].const < len(b) else NONE
    return FNS["get"](ev, av, at, t)


def _firstb(last):
    def f(ev, av, at, t):
        if av and isinstance(av[0], S):
            b = av[0].s.encode()
            return Some(I(b[-1 if last else 0], b[-1 if last else 0])) if b else NONE
        return (FNS["last"] if last else FNS["first"])(ev, av, at, t)
    return f


def _unwrap_or(ev, av, at, t):
    if len(av) == 2 and isinstance(av[0], Adt):
        return av[0].fields.get("0") if av[0].variant in ("Some", "Ok") else av[1]


def aslist(v):
    while isinstance(v, Adt) and not v.variant and len(v.fields) == 1 and v.name not in ("array", "tuple"):
        v = next(iter(v.fields.values()))
    if isinstance(v, Adt) and v.name in ("array", "") and not v.variant:
        try:
            return L([v.fields[str(i)] for i in range(len(v.fields))])
        except KeyError:
            return None
    return v if isinstance(v, L) else None


def _list(ev, av, at, t):
    return aslist(av[0]) if av else None


def _next(ev, av, at, t):
    l = aslist(av[0]) if av else None
    return None if l is None else Some(l.xs[0]) if l.xs else NONE


def _rest(ev, old, c, t):
    l = aslist(old)
    return None if l is None else L(l.xs[1:])


def _listop(g):
    def f(ev, av, at, t):
        l = aslist(av[0]) if av else None
        n = av[1].const if len(av) > 1 and isinstance(av[1], I) else None
        return None if l is None else g(l.xs, n)
    return f


def _contains(ev, av, at, t):
    l = aslist(av[0]) if len(av) == 2 else None
    if l is None:
        return None
    rs = [ev.eq(x, av[1], False) for x in l.xs]
    return TRUE if TRUE in rs else None if None in rs else FALSE


ITER_FNS = {"count": _listop(lambda xs, n: I(len(xs), len(xs))), "iter": _list, "into_iter": _list, "by_ref": _list, "copied": _list, "cloned": None, "rev": _listop(lambda xs, n: L(xs[::-1])), "skip": _listop(lambda xs, n: None if n is None else L(xs[n:])), "take": _listop(lambda xs, n: None if n is None else L(xs[:n])),
            "enumerate": _listop(lambda xs, n: L([Adt("tuple", None, {"0": I(i, i), "1": x}) for i, x in enumerate(xs)])), "next": _next, "contains": _contains, "peekable": _list}
ITER_FNS = {k: v for k, v in ITER_FNS.items() if v}
ITER_FNS.update({"call:" + k: as_call(v) for k, v in list(ITER_FNS.items())})
ITER_FNS["havoc:next"] = _rest
STR_FNS = {"from_str_radix": _radix, "parse": _parse, "from_utf8": _utf8, "bytes": _items, "chars": _chars, "all": _quant("all"), "any": _quant("any"), "split_first": _split_first, "format": _format,
           "eq_ignore_ascii_case": _cmpcase, "to_ascii_lowercase": _low, "to_lowercase": _low, "to_ascii_uppercase": _up, "to_uppercase": _up, "trim": _trim, "find": _find, "replace": _replace, "get": _getb, "first": _firstb(False), "last": _firstb(True), "unwrap_or": _unwrap_or,
           "as_bytes": FNS["as_ref"]}
STR_FNS.update({n: _ctype(n) for n in CTYPE})
for _n in list(STR_FNS):
    STR_FNS["call:" + _n] = as_call(STR_FNS[_n])
STR_FNS.update(ITER_FNS)


# ---- the event and the reader's state
def scalar(text, style="Plain", tag=None, rep=None):
    return Adt("Event", "Scalar", {"0": Adt("Scalar", None, {"anchor": NONE, "tag": Some(S(tag)) if tag is not None else NONE, "value": S(text) if isinstance(text, str) else text, "style": Adt("ScalarStyle", style), "repr": NONE if rep is None else Some(S(rep))})})


def start(kind, tag=None):
    k = {"[": "Sequence", "{": "Mapping"}[kind]
    return Adt("Event", k + "Start", {"0": Adt(k + "Start", None, {"anchor": NONE, "tag": Some(S(tag)) if tag is not None else NONE})})


END = {"]": Adt("Event", "SequenceEnd"), "}": Adt("Event", "MappingEnd")}
VOID = Adt("Event", "Void")


def alias(n):
    return Adt("Event", "Alias", {"0": I(n, n)})


def events(*evs):
    return L([Adt("tuple", None, {"0": x, "1": X(f"mark{i}")}) for i, x in enumerate(evs)])


def roles(e, D):
    """terms that stand for the reader's state"""
    if not hasattr(e, "_roles"):
        r = e._roles = {"events": [], "aliases": [], "pos": [], "budget": [], "counter": [], "enum": []}
        from sim import looped
        dep = looped(e)
        for t, k in e.terms.items():
            if t in dep:
                continue
            ty = e.ty(t) or ""
            if k[0] == "f" and "Vec<(" in ty and "Event" in ty:
                r["events"].append(t)
            if k[0] == "f" and "Map<usize,usize>" in ty.replace(" ", ""):
                r["aliases"].append(t)
            if k[0] == "d" and e.terms[k[1]][0] == "f" and e.terms[k[1]][3] == D.pos and D.own(e, k[1], D.pos):
                r["pos"].append(t)
            if k[0] == "f" and k[3] == D.budget and D.own(e, t, D.budget):
                r["budget"].append(t)
            if k[0] == "d" and D.counter and e.terms[k[1]][0] == "f" and e.terms[k[1]][3] == D.counter and D.own(e, k[1], D.counter):
                r["counter"].append(t)
            if D.enum and D.own(e, t, D.enum):
                r["enum"].append(t)
    return e._roles


def text_env(e, D, evs, pos=0, budget=100, enum=None, aliases=None):
    vals = {"events": evs, "aliases": M([(I(a, a), I(b, b)) for a, b in (aliases or {}).items()]), "pos": I(pos, pos), "budget": I(budget, budget), "counter": I(0, 0),
            "enum": NONE if enum is None else Some(Adt("CurrentEnum", None, {"name": NONE, "tag": S(enum)}))}
    rs = roles(e, D)
    env = {t: vals[r] for r, ts in rs.items() for t in ts}
    if any(k[0] == "y" and k[1] == "loop" for k in e.terms.values()):
        doc = {}
        for t, k in e.terms.items():
            ty = (e.ty(t) or "").replace(" ", "")
            if k[0] == "f" and "Vec<(" in ty and "Event" in ty:
                doc[k[3]] = vals["events"]
            elif k[0] == "f" and "Map<usize,usize>" in ty:
                doc[k[3]] = vals["aliases"]
        st = {D.pos: vals["pos"], D.budget: vals["budget"], D.counter: vals["counter"], D.enum: vals["enum"], D.document: Adt("Document", None, doc)}
        for t, k in e.terms.items():
            if k[0] == "d" and k[1] == e.params[0][0] and e.ty(t) == D.name:
                env[t] = Adt(D.name, None, {n: v for n, v in st.items() if n})
    return env


def payload(v):
    if v is None:
        return None
    if isinstance(v, I):
        return v.const
    if isinstance(v, F):
        return next(iter(v.classes)) if v.val is None and len(v.classes) == 1 and "fin" not in next(iter(v.classes)) else ("float", repr(v.val)) if v.val is not None else None
    if isinstance(v, S):
        return v.s
    return repr(v)


CALLBACKS = ("visit_", "deserialize_", "invalid_", "custom")


def reads(e, D, evs, outcome="ok", fns=None, paths=None, **kw):
    """-> [(feasibility, [(callback, payload)], result variant, path, Ev, choice)]"""
    f = dict(FNS)
    f.update(STR_FNS)
    if not hasattr(e, "_cbs"):
        e._cbs = {c.last for p in e.paths for c in p.calls() if c.last.startswith(CALLBACKS)}
    names = e._cbs
    res = Adt("Result", "Ok", {"0": X("value")}) if outcome == "ok" else Adt("Result", "Err", {"0": X("callee error")})
    for n in names:
        if n.startswith(("visit_", "deserialize_")):
            f["call:" + n] = lambda ev, av, args, c: res
        f["havoc:" + n] = lambda ev, old, c, t: old
    f.update(fns or {})
    ev = Ev(e, text_env(e, D, evs, **kw), fns=f)
    out = []
    if paths is None:
        paths = narrow(e, D, evs.xs[0].fields["0"], **kw)
    if not hasattr(paths, "loops"):
        paths.loops = any(p.end == "back" for p in paths)
    if paths.loops:
        rs = drive(ev, paths)
        if rs is None:
            if ev.stuck is not None and not list(ev.stuck.calls()):
                # a round of the loop without any call that may change something ends in the state it began in
                return [("yes", [], "forever", ev.stuck, ev, {})]
            return [("maybe", [], None, paths[0], ev, {})]
    else:
        ev.loop_choices = lambda: [{}]
        rs = ev.outcomes(("return", "panic"), paths)
    for fz, p, ch in rs:
        ev.at(ch)
        cs = []
        for c in p.calls():
            if c.last.startswith(CALLBACKS):
                cs.append((c.last, [payload(ev.ev(a)) for a in c.args if not (e.terms[a][0] == "y" and e.terms[a][1] == "param")]))
        v = ev.ev(p.val) if p.end == "return" else None
        out.append((fz, cs, "panic" if p.end == "panic" else v.variant if isinstance(v, Adt) else None, p, ev, ch))
    return out


def narrow(e, D, ev0, **kw):
    """the paths that an event of this shape can take whatever its text is"""
    ev = Ev(e, text_env(e, D, events(ev0), **kw), fns=dict(FNS, **STR_FNS))
    return Paths(e, [p for p in e.paths if p.end in ("return", "panic", "back") and ev.feasible(p) != "no"])


# ---- the core schema
NULLS = ("~", "null", "Null", "NULL")
TRUES = ("true", "True", "TRUE")
FALSES = ("false", "False", "FALSE")


def int_value(s):
    m = re.match(r"([+-]?)(0x[0-9a-fA-F]+|0o[0-7]+|0b[01]+|0|[1-9][0-9]*)\Z", s, re.A)
    if not m:
        return None
    b = m.group(2)
    n = int(b[2:], {"0x": 16, "0o": 8, "0b": 2}[b[:2]]) if b[:2] in ("0x", "0o", "0b") else int(b)
    return -n if m.group(1) == "-" else n


def float_value(s):
    """payload of a float scalar (decimal integers included) or None"""
    if s in (".nan", ".NaN", ".NAN"):
        return "nan"
    m = re.match(r"([+-]?)\.(inf|Inf|INF)\Z", s)
    if m:
        return "-inf" if m.group(1) == "-" else "+inf"
    if re.match(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z", s, re.A):
        v = float(s)
        if v in (float("inf"), float("-inf")):
            return None
        return ("float", repr(v))
    return None


def leading_zero(s):
    return bool(re.match(r"[+-]?0[0-9]+\Z", s, re.A))


def untyped(s):
    """(callback, payload) an untyped read of a plain untagged scalar makes; ints carry their value"""
    if s == "" or s in NULLS:
        return ("unit", None)
    if s in TRUES:
        return ("bool", 1)
    if s in FALSES:
        return ("bool", 0)
    n = int_value(s)
    if n is not None and -2 ** 127 <= n <= 2 ** 128 - 1:
        return ("int", n)
    if not leading_zero(s):
        f = float_value(s)
        if f is not None:
            return ("float", f)
    return ("str", s)


def int_visit(n):
    return "u64" if 0 <= n <= 2 ** 64 - 1 else "i64" if -2 ** 63 <= n < 0 else "u128" if n >= 0 else "i128"


def words():
    """scalar texts: at least one for every lexical class the schema or a careless reader distinguishes"""
    out = {"", " ", "text", "-", "+", ".", "e", "0x", "0o", "0b", "-0x", "+0b", "..", "\u00e9", "\u0661", "0\u0661", "1\u0661", "a\u00e9", "\u4e2d", "a\u4e2d", "\U0001f600", "+\u00e9", "-\u4e2d", "0x\u4e2d", ".\u4e2d", "aaa\u4e2d", "\x00", "!"}
    for w in ("~", "null", "true", "false", "yes", "no", "on", "off", "y", "n", "nan", "inf", "infinity", ".nan", ".inf", "none", "nil"):
        for v in {w, w.capitalize(), w.upper(), w[:1] + w[1:].capitalize() if w.startswith(".") else w, w + "x", w + " ", w[:-1], w[:-1] + w[-1].upper(), w + w, "." + w}:
            out.add(v)
            if len(w) > 1 and ("nan" in w or "inf" in w):
                out |= {s + v for s in ("+", "-", "++", "+-", "-+", "--")}
    for w in (".NaN", ".nAN", ".NAN", ".iNF", "-.Inf", "+.INF"):
        out.add(w)
    B10 = [0, 1, 7, 8, 9, 10, 12, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 127 - 1, 2 ** 127, 2 ** 127 + 1, 2 ** 128 - 1, 2 ** 128, 10 ** 40]
    for n in B10:
        forms = ["%d" % n, "0%d" % n, "00%d" % n, "0x%x" % n, "0x%X" % n, "0X%x" % n, "0o%o" % n, "0O%o" % n, "0b%s" % bin(n)[2:], "0B%s" % bin(n)[2:], "0x0%x" % n, "0o0%o" % n, "0b0%s" % bin(n)[2:], "%d." % n, "%d.5" % n, "0%d.5" % n, "%de1" % n, "%dE2" % n, "0%de1" % n, "%d.e1" % n, ".%d" % n, "%d_0" % n, "%d 0" % n, "%d,0" % n, " %d" % n, "%d " % n, "%dx" % n, "%d-" % n]
        if n > 2 ** 32:
            forms = forms[:14] + forms[16:18]
        for f in forms:
            for s in ("", "+", "-"):
                out.add(s + f)
            if n in (0, 1, 10, 2 ** 63, 2 ** 64 - 1):
                for s in ("++", "--", "+-", "-+", "+ ", "- "):
                    out.add(s + f)
    for p in ("0x", "0o", "0b"):
        for d in ("+1", "-1", "++1", "0x1", " 1", "1 ", "1.5", "1e1", "2", "8", "9", "a", "f", "g", "F", "G", "_1", "1_0", "\u0661", ".1"):
            for s in ("", "+", "-"):
                out.add(s + p + d)
    for f in ("1e1", "1E1", "1e+1", "1e-1", "1e", "1e+", "e1", ".e1", ".5", "5.", ".5e1", "5.e1", "1.5.2", "1..2", "1e1e1", "1e1.5", "1e999", "1e-999", "1.5e300", "0e0", "0.0", "0.", ".0", "00.0", "01.5", "01e5", "1:30", "12e03", "0x1.8", "0x1p3", "1f", "1f64", "1.0f", "0.1", "123.456", "NaN", "Infinity", "INFINITY", "12_3.4", "1d5"):
        for s in ("", "+", "-", "++", "+-", "-+", "--"):
            out.add(s + f)
    return sorted(out)


def literals(R):
    """every text the code itself compares something with"""
    out = set()
    for e in R.entries:
        for t, k in e.terms.items():
            if k[0] == "s" and isinstance(k[1], str) and 0 < len(k[1]) <= 24 and not k[1].startswith("\0"):
                out.add(k[1])
        for p in e.paths:
            for t, d in p.facts.items():
                for x in list(d.get("in", [])) + list(d.get("not", [])):
                    if isinstance(x, str) and 0 < len(x) <= 24 and not x[:1].isupper() and e.terms[t][0] != "D":
                        out.add(x)
    return out


def near_chars(R):
    """texts around every character the code itself looks for"""
    cs = {chr(k[1]) for e in R.entries for t, k in e.terms.items() if k[0] == "i" and (e.ty(t) or "").lstrip("&") == "char" and isinstance(k[1], int) and 0 < k[1] < 0x110000 and not 0xd800 <= k[1] < 0xe000}
    out = set()
    for c in sorted(cs)[:60]:
        out |= {c, c + "a", "a" + c, "a" + c + "a", c + "1", "1" + c, c + c, c + "a b" + c}
    return out


def got(r):
    """(callback, payload) a path delivers, 'error', or None"""
    fz, cs, res, p = r[:4]
    vs = [c for c in cs if c[0].startswith(("visit_", "deserialize_"))]
    if len(vs) == 1:
        n, a = vs[0]
        n = "visit_str" if n in ("visit_borrowed_str", "visit_string") else n
        if any(x is None for x in a):
            return None
        return (n, tuple(a))
    if not vs:
        return "error" if res == "Err" else res if res in ("panic", "forever") else None
    return None


def decide(ck, key, rs, ok, msg, where=""):
    """ok(outcome) -> bool or None.  Alarm: a path certainly taken is wrong, or every possible path is."""
    if not rs:
        ck.undecided(key, "no path")
        return
    os = [(r[0], got(r), r[3]) for r in rs]
    js = [(fz, o, None if o is None else False if o == "forever" else ok(o), p) for fz, o, p in os]
    bad = [j for j in js if j[2] is False]
    sure = [j for j in bad if j[0] in ("yes", "free")] or (bad if len(bad) == len(js) else [])
    if sure:
        ck.obl(False, key, f"{msg}; it gives {show(sure[0][1])}", where or f"{sure[0][3].infn} {sure[0][3].span}")
    elif bad or any(j[2] is None for j in js):
        ck.undecided(key, msg)
    else:
        ck.obl(True, key, msg)


def show(o):
    if isinstance(o, tuple):
        return o[0] + "(" + ", ".join(repr(x[1]) if isinstance(x, tuple) else repr(x) for x in o[1]) + ")"
    return str(o)


def final(e, D, p, ev, field):
    """what the path leaves in a field of the reader: (known, value); value None with known=True means untouched"""
    ts = set()
    for root, t in p.out.items():
        for st in D.states(e, t) + [x for x in e.subterms(t) if e.terms[x][0] == "A" and e.ty(x) == D.name]:
            if e.terms[st][0] == "A" and field in e.fields(st):
                x = e.fields(st)[field]
                if not D.own(e, x, field):
                    ts.add(e.terms[x][2] if e.terms[x][0] == "r" else x)
    for q, t in p.heap.items():
        if D.own(e, q, field):
            ts.add(t)
    if not ts:
        looped = any(e.terms[x][0] == "y" and e.terms[x][1] == "loop" and (e.ty(x) or "").lstrip("&").removeprefix("mut ").split("<")[0] == D.name.split("<")[0] for t in p.out.values() for x in [t, *e.subterms(t)])
        return (False, None) if looped else (True, None)    # a reader changed by a loop is not an untouched one
    vs = [ev.ev(t) for t in ts]
    same = lambda a, b: isinstance(a, I) and isinstance(b, I) and a.const is not None and a.const == b.const or isinstance(a, Adt) and isinstance(b, Adt) and a.variant == b.variant
    return all(same(vs[0], v) for v in vs), vs[0]


def final_pos(e, D, p, ev, start=0):
    """where the path leaves the reader: an event index, or None when not known"""
    known, v = final(e, D, p, ev, D.pos)
    if known and v is None:
        return start
    return v.const if known and isinstance(v, I) else None


def final_enum(e, D, p, ev, start):
    """whether a tag is still pending when the path ends: True, False or None (not known)"""
    known, v = final(e, D, p, ev, D.enum)
    if known and v is None:
        return start
    return {"Some": True, "None": False}.get(v.variant) if known and isinstance(v, Adt) else None
