"""Abstract evaluation of extracted traces over regions of inputs.

An environment maps base terms (parameters, call results, loop symbols) to abstract values; every
other term is evaluated in interval / class arithmetic.  A path of an entry is 'yes' (its conditions
hold for every input of the region), 'no' (they hold for none) or 'maybe'.
"""
import itertools
import math
import struct

RANGES = {}
for _b in (8, 16, 32, 64, 128):
    RANGES["u%d" % _b] = (0, 2 ** _b - 1)
    RANGES["i%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
RANGES["usize"] = RANGES["u64"]
RANGES["isize"] = RANGES["i64"]
RANGES["bool"] = (0, 1)
RANGES["char"] = (0, 0x10FFFF)

FCLASSES = ("nan", "-inf", "-fin", "-0", "+0", "+fin", "+inf")


class I:
    """integers in [lo,hi]; src names the mathematical input value it equals"""
    def __init__(self, lo, hi, src=None):
        self.lo, self.hi, self.src = lo, hi, src

    def __repr__(self):
        return f"int[{self.lo},{self.hi}]{'=' + self.src if self.src else ''}"

    def __eq__(self, o):
        return isinstance(o, I) and (self.lo, self.hi, self.src) == (o.lo, o.hi, o.src)

    def __hash__(self):
        return hash((self.lo, self.hi, self.src))

    @property
    def const(self):
        return self.lo if self.lo == self.hi else None


class F:
    def __init__(self, classes, src=None, val=None):
        self.classes, self.src, self.val = frozenset([classes] if isinstance(classes, str) else classes), src, val

    def __repr__(self):
        return f"float{sorted(self.classes)}{'=' + self.src if self.src else ''}{'' if self.val is None else ':' + repr(self.val)}"

    def __eq__(self, o):
        return isinstance(o, F) and (self.classes, self.src, self.val) == (o.classes, o.src, o.val)

    def __hash__(self):
        return hash((self.classes, self.src))


class Adt:
    def __init__(self, name, variant, fields=None):
        self.name, self.variant, self.fields = name, variant, fields or {}

    def __repr__(self):
        n = f"{self.name}::{self.variant}" if self.variant else self.name
        return n + ("{" + ", ".join(f"{k}:{v}" for k, v in self.fields.items()) + "}" if self.fields else "")

    def __eq__(self, o):
        return isinstance(o, Adt) and (self.name, self.variant, self.fields) == (o.name, o.variant, o.fields)

    def __hash__(self):
        return hash((self.name, self.variant, tuple(sorted(self.fields))))


class S:
    """known string"""
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)

    def __eq__(self, o):
        return isinstance(o, S) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class X:
    """opaque value with an identity"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __eq__(self, o):
        return isinstance(o, X) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


def opaque_value(v):
    """a value some part of which the region leaves open"""
    if v is None or isinstance(v, X):
        return True
    if isinstance(v, I):
        return v.const is None
    if isinstance(v, F):
        return v.val is None
    if isinstance(v, S):
        return False
    return any(opaque_value(x) for x in v.fields.values())


TRUE, FALSE = I(1, 1), I(0, 0)


def B(x):
    return None if x is None else (TRUE if x else FALSE)


def Some(x):
    return Adt("Option", "Some", {"0": x})


NONE = Adt("Option", "None")


def base(n):
    """function name without generic arguments: (full, last)"""
    n = n.partition("<")[0]
    return n, n.rsplit("::", 1)[-1]


NAN_APPS = {"copysign"}


def cut(s, rng, text):
    """what `s[rng]` gives: (True, None) a panic, (False, text or None), (None, None) unknown"""
    fs = rng.fields
    lo, hi = fs.get("start"), fs.get("end")
    if "\ue000" in s or "\ue001" in s or not all(x is None or isinstance(x, I) and x.const is not None for x in (lo, hi)) or "start" in fs and lo is None or "end" in fs and hi is None:
        return None, None
    if rng.name not in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeToInclusive"):
        return None, None
    d = s.encode()
    x, y = lo.lo if lo else 0, hi.lo + (rng.name == "RangeToInclusive") if hi else len(d)
    if not x <= y <= len(d):
        return True, None
    try:
        return False, d[x:y].decode()
    except UnicodeDecodeError:
        if text:
            return True, None
        return False, None


PANICS = None       # when a list: the panicking paths met by any evaluation, with their feasibility (C14)


class Paths(list):
    """paths of one function, arranged so that a shared condition found false discards all paths below it"""
    def __init__(self, e, paths):
        super().__init__(paths)
        up = e.__dict__.setdefault("_up", {})
        cond = lambda n: e.nodes[n][1][0] in ("fact", "merged")
        self.root = (None, {}, [])
        at = {}

        def above(n):
            m = up.get(n)
            if m is None:
                m = e.nodes[n][0]
                while m >= 0 and not cond(m):
                    m = e.nodes[m][0]
                up[n] = m
            return m

        def node(n):
            chain = []
            while n >= 0 and n not in at:
                chain.append(n)
                n = above(n)
            cur = at[n] if n >= 0 else self.root
            for m in reversed(chain):
                x = (e.nodes[m][1], {}, [])
                cur[1][m] = x
                at[m] = cur = x
            return cur
        for p in self:
            n = p.node
            if n >= 0 and not cond(n):
                n = above(n)
            (node(n) if n >= 0 else self.root)[2].append(p)

    def live(self, ev):
        out, work = [], [self.root]
        while work:
            it, kids, ps = work.pop()
            if it is not None:
                if it[0] == "fact":
                    if ev.holds(it[1], {"in": [it[2]]} if it[3] else {"not": [it[2]]}) is False:
                        continue
                elif ev.dnf(it[1]) is False:
                    continue
            out.extend(ps)
            work.extend(kids.values())
        return out


class Ev:
    def __init__(self, entry, env, order=None, fns=None):
        self.e, self.env, self.order, self.fns = entry, dict(env), order or {}, fns or {}
        self.memo = {}
        self.choice = {}
        self.lazy = False

    # ---- terms
    def ev(self, t):
        if t in self.choice:
            return self.choice[t]
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        v = self._ev(t)
        self.memo[t] = v
        return v

    def _ev(self, t):
        e = self.e
        if t not in e.terms:
            return None
        k = e.terms[t]
        o = k[0]
        if o == "i":
            x = k[1]
            if isinstance(x, str):
                return flt_const(x)
            ty = e.ty(t)
            return I(x, x)
        if o == "s":
            return S(k[1])
        if o == "k" and str(k[1]).startswith("bits:"):
            x = str(k[1]).split(":")[1]
            return I(int(x), int(x)) if x.isdigit() and ("*" in (e.ty(t) or "")) else None
        if o == "k" and str(k[1]).startswith("static:"):
            ty = (e.ty(t) or "").lstrip("&")
            if ty.startswith(("Vec<", "std::vec::Vec<", "alloc::vec::Vec<")):
                from sim import L
                return L()      # a vector in a static is empty: statics cannot allocate
            return None
        if o in ("S",):
            r = self.ev(k[2])
            return r if r is not None else None
        if o == "v" or o == "d":
            return self.ev(k[1])
        if o == "r":
            return self.ev(k[2]) if k[1] == "H" and not k[3] else None
        if o == "f":
            v = self.ev(k[1])
            if isinstance(v, Adt):
                if k[2] and v.variant and k[2] != v.variant:
                    return None
                return v.fields.get(k[3])
            if isinstance(v, S) and k[3] in ("0", "pointer") and not k[2]:
                return v    # newtypes and boxes around text
            if type(v).__name__ in ("L", "M") and not k[2]:
                return v    # wrappers around collections and their iterators
            return None
        if o in ("ix", "ci"):
            v = self.ev(k[1])
            i = self.ev(k[2]) if o == "ix" else I(k[2], k[2])
            if isinstance(v, S) and isinstance(v.s, str) and "\ue000" not in v.s and "\ue001" not in v.s and isinstance(i, I) and i.const is not None:
                b = v.s.encode()
                n = len(b) - i.const if o == "ci" and k[3] else i.const
                return I(b[n], b[n]) if 0 <= n < len(b) else None
            if type(v).__name__ == "L" and isinstance(i, I) and i.const is not None:
                n = len(v.xs) - i.const if o == "ci" and k[3] else i.const
                return v.xs[n] if 0 <= n < len(v.xs) else None
            return None
        if o == "su":
            v = self.ev(k[1])
            if isinstance(v, S) and isinstance(v.s, str) and v.s.isascii():
                end = len(v.s) - k[3] if k[4] else k[3]
                return S(v.s[k[2]:end]) if k[2] <= end <= len(v.s) else None
            return None
        if o == "D":
            v = self.ev(k[1])
            if isinstance(v, Adt) and v.variant:
                return S(v.variant)
            if v is None and e.terms[k[1]][0] == "z" and (e.ty(k[1]) or "").startswith("Option<"):
                return S("None")    # the only value of a zero-sized Option
            return None
        if o == "A":
            name = k[1].rsplit("::", 1)[-1]
            names = k[4] if k[4] else [str(i) for i in range(len(k[3]))]
            return Adt(name, k[2] or None, {n: self.ev(x) for n, x in zip(names, k[3])})
        if o == "c":
            return self.cast(k[1], self.ev(k[2]), k[3], t)
        if o == "b":
            return self.binop(k[1], self.ev(k[2]), self.ev(k[3]), k[2] == k[3], t)
        if o == "u":
            v = self.ev(k[2])
            if k[1] == "Not" and isinstance(v, I) and e.ty(t) in (None, "bool") and v.const is not None:
                return I(1 - v.lo, 1 - v.lo)
            if k[1] == "Not" and isinstance(v, I) and e.ty(t) in RANGES:
                r = RANGES[e.ty(t)]
                return I(-1 - v.hi, -1 - v.lo) if r[0] < 0 else I(r[1] - v.hi, r[1] - v.lo)
            if k[1] == "Neg" and isinstance(v, I):
                return I(-v.hi, -v.lo)
            return None
        if o == "a":
            return self.app(k[1], [self.ev(x) for x in k[2]], k[2], t)
        if o == "y" and k[1] == "havoc":
            c = e.call_by_uid(k[2])
            if c is None:
                return None
            old = self.ev(k[3])
            f = self.fns.get("havoc:" + c.last) or self.fns.get("havoc*")
            if f:
                r = f(self, old, c, t)
                if r is not None or not isinstance(old, S):
                    return r
            # String::push_str, push, insert and insert_str are exact
            if c.last in ("insert", "insert_str") and "String" in c.name and isinstance(old, S) and isinstance(old.s, str) and len(c.args) == 3:
                i, a = self.ev(c.args[1]), self.ev(c.args[2])
                x = a.s if isinstance(a, S) and isinstance(a.s, str) else chr(a.const) if isinstance(a, I) and a.const is not None and e.ty(c.args[2]) == "char" else None
                if isinstance(i, I) and i.const is not None and x is not None:
                    b = old.s.encode()
                    return S((b[:i.const] + x.encode() + b[i.const:]).decode("utf-8", "replace"))
            if c.last in ("push_str", "push") and "String" in c.name and isinstance(old, S) and len(c.args) == 2:
                a = self.ev(c.args[1])
                if isinstance(a, S) and isinstance(a.s, str):
                    return S(old.s + a.s)
                if isinstance(a, I) and a.const is not None and e.ty(c.args[1]) == "char":
                    return S(old.s + chr(a.const))
            return None
        if o == "y" and k[1] == "loop" and self.lazy:
            return self.ev(k[3])    # a loop not yet gone round
        if o == "y" and k[1] == "ret":
            c = e.call_of(t)
            if c is not None:
                f = self.fns.get("call:" + c.last)
                if f:
                    return f(self, [self.ev(x) for x in c.args], c.args, c)
                if c.last == "write_fmt" and c.selfty == "Buf":
                    # serde's own fixed buffer, which holds the longest text serde writes to it
                    return Adt("Result", "Ok", {"0": Adt("tuple", None, {})})
        return None

    def cast(self, kind, v, ty, t):
        if kind in ("Transmute", "Ptr"):
            return v
        if kind == "IntToInt" and isinstance(v, I):
            r = RANGES.get(ty)
            if r is None:
                return None
            if r[0] <= v.lo and v.hi <= r[1]:
                return v
            m = r[1] - r[0] + 1
            if (v.lo - r[0]) // m == (v.hi - r[0]) // m:
                d = ((v.lo - r[0]) // m) * m
                return I(v.lo - d, v.hi - d, None if d else v.src)
            return I(r[0], r[1])
        if kind == "IntToFloat" and isinstance(v, I):
            if v.const is not None and v.src is None and (ty == "f64" or abs(v.const) <= 2 ** 53):
                return fconst(float(v.const) if ty == "f64" else narrow(float(v.const)))
            ex = 2 ** 53 if ty == "f64" else 2 ** 24
            cl = {"+fin"} if v.lo > 0 else {"-fin"} if v.hi < 0 else {"+0"} if v.lo == v.hi == 0 else {"-fin", "+0", "+fin"}
            exact = -ex <= v.lo and v.hi <= ex
            return F(cl, v.src if exact else ("round(%s)" % v.src if v.src else None))
        if kind == "FloatToFloat" and isinstance(v, F):
            src_ty = self.e.ty(self.e.terms[t][2])
            if ty == "f64":
                return v
            if src_ty == "f32":
                return v
            x = conc(v)
            return F(FCLASSES, None) if x is None else v if v.classes == {"nan"} or narrow(x) == x else fconst(narrow(x))
        if kind == "FloatToInt":
            x, r = conc(v) if isinstance(v, F) else None, RANGES.get(ty)
            if x is None or r is None:
                return None
            n = 0 if x != x else r[1] if x > r[1] else r[0] if x < r[0] else int(x)
            return I(n, n)
        return None

    def cmp(self, a, b, same):
        """set of possible orderings of two values: subset of '<=>u' or None"""
        if isinstance(a, S) and isinstance(b, S):
            if type(a.s) is not type(b.s):
                return None
            return {"="} if a.s == b.s else {"<"} if a.s < b.s else {">"}
        if isinstance(a, Adt) and isinstance(b, Adt) and a.name == "Ordering" == b.name:
            r = {"Less": 0, "Equal": 1, "Greater": 2}
            return self.cmp(I(r[a.variant], r[a.variant]), I(r[b.variant], r[b.variant]), False)
        if isinstance(a, I) and isinstance(b, I) and a.src and b.src and a.src.startswith("bits(") and b.src.startswith("bits(") and a.hi >= b.lo and b.hi >= a.lo:
            r = self.order.get((a.src[5:-1], b.src[5:-1]))
            if a.src == b.src or r == "=":
                return {"="}
            if r in ("<", ">"):
                return {r} if a.hi < 1 << 63 else {"<" if r == ">" else ">"}
            return None
        if isinstance(a, I) and isinstance(b, I):
            if same or (a.src and a.src == b.src):
                return {"="}
            if a.hi < b.lo:
                return {"<"}
            if a.lo > b.hi:
                return {">"}
            if a.const is not None and a.const == b.const:
                return {"="}
            if a.src and b.src:
                r = self.order.get((a.src, b.src))
                if r:
                    return set(r)
                r = self.order.get((b.src, a.src))
                if r:
                    return {{"<": ">", ">": "<"}.get(c, c) for c in r}
            r = {"<", "=", ">"}
            if a.hi == b.lo:
                r.discard(">")
            if a.lo == b.hi:
                r.discard("<")
            return r
        if isinstance(a, F) and isinstance(b, F):
            if "nan" in a.classes or "nan" in b.classes:
                if a.classes == {"nan"} or b.classes == {"nan"}:
                    return {"u"}
                return None
            if same or (a.src and a.src == b.src):
                return {"="}
            if a.val is not None and b.val is not None:
                return {"=" if a.val == b.val else "<" if a.val < b.val else ">"}
            rk = {"-inf": -2, "-fin": -1, "-0": 0, "+0": 0, "+fin": 1, "+inf": 2}
            out = set()
            for x in a.classes:
                for y in b.classes:
                    if rk[x] < rk[y]:
                        out.add("<")
                    elif rk[x] > rk[y]:
                        out.add(">")
                    elif x in ("+fin", "-fin"):
                        r = None
                        if a.src and b.src:
                            r = self.order.get((a.src, b.src))
                            if not r:
                                r = self.order.get((b.src, a.src))
                                r = {{"<": ">", ">": "<"}.get(c, c) for c in r} if r else None
                        out |= set(r) if r else {"<", "=", ">"}
                    else:
                        out.add("=")
            return out
        if isinstance(a, X) and isinstance(b, X):
            if same or a == b:
                return {"="}
            r = self.order.get((a.name, b.name))
            if r:
                return set(r)
            r = self.order.get((b.name, a.name))
            return {{"<": ">", ">": "<"}.get(c, c) for c in r} if r else None
        return None

    def binop(self, op, a, b, same, t):
        ka, kb = self.e.terms.get(self.binargs(t)[0]), self.e.terms.get(self.binargs(t)[1])
        if ka and kb and ka[0] == "D" and kb[0] == "D" and isinstance(a, S) and isinstance(b, S) and a.s != b.s and op not in ("Eq", "Ne"):
            a, b = self.dorder(self.binargs(t)[0], a), self.dorder(self.binargs(t)[1], b)
        if isinstance(a, S) and isinstance(b, I) and ka and ka[0] == "D":
            a = self.dorder(self.binargs(t)[0], a)
        elif isinstance(b, S) and isinstance(a, I) and kb and kb[0] == "D":
            b = self.dorder(self.binargs(t)[1], b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a is None or b is None:
                return None
            c = self.cmp(a, b, same)
            if c is None:
                return None
            ok = {"Eq": "=", "Ne": "<>u", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[op]
            r = {x in ok for x in c}
            return B(r.pop()) if len(r) == 1 else None
        if op == "Cmp":
            c = self.cmp(a, b, same) if a is not None and b is not None else None
            return ordering(c)
        if isinstance(a, F) and isinstance(b, F) and op in ("Add", "Sub", "Mul", "Div", "Rem"):
            x, y = conc(a), conc(b)
            if x is None or y is None or op in ("Div", "Rem") and y == 0 or x != x or y != y:
                return None
            try:
                z = x + y if op == "Add" else x - y if op == "Sub" else x * y if op == "Mul" else x / y if op == "Div" else math.fmod(x, y)
            except (OverflowError, ValueError):
                return None
            return fconst(narrow(z) if self.e.ty(t) == "f32" else z)
        if isinstance(a, I) and isinstance(b, I):
            ty = self.e.ty(t)
            if op == "Add":
                return self.fit(a.lo + b.lo, a.hi + b.hi, ty)
            if op == "Sub":
                if same:
                    return I(0, 0)
                return self.fit(a.lo - b.hi, a.hi - b.lo, ty)
            if op == "Mul":
                c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
                return self.fit(min(c), max(c), ty)
            if op in ("BitAnd", "BitOr", "BitXor") and a.const is not None and b.const is not None and a.const >= 0 and b.const >= 0:
                x = {"BitAnd": a.const & b.const, "BitOr": a.const | b.const, "BitXor": a.const ^ b.const}[op]
                return I(x, x)
            if op in ("Shl", "Shr") and a.const is not None and b.const is not None and 0 <= b.const < 128 and RANGES.get(ty):
                r = RANGES[ty]
                x = a.const << b.const if op == "Shl" else a.const >> b.const
                m = r[1] - r[0] + 1
                x = (x - r[0]) % m + r[0]
                return I(x, x)
            if op in ("Div", "Rem") and a.const is not None and b.const not in (None, 0):
                q = abs(a.const) // abs(b.const) * (1 if (a.const < 0) == (b.const < 0) else -1)
                x = q if op == "Div" else a.const - q * b.const
                return I(x, x)
            if op == "BitAnd" and (a.const == 0 or b.const == 0):
                return I(0, 0)
            if op == "BitOr" and ty == "bool" and (a.const == 1 or b.const == 1):
                return I(1, 1)
            if op in ("AddOvf", "SubOvf", "MulOvf"):
                aty = self.e.ty(self.e.terms[t][2])
                r = RANGES.get(aty)
                if not r:
                    return None
                if op == "AddOvf":
                    lo, hi = a.lo + b.lo, a.hi + b.hi
                elif op == "SubOvf":
                    lo, hi = a.lo - b.hi, a.hi - b.lo
                else:
                    c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
                    lo, hi = min(c), max(c)
                if r[0] <= lo and hi <= r[1]:
                    return FALSE
                if hi < r[0] or lo > r[1]:
                    return TRUE
        return None

    def binargs(self, t):
        k = self.e.terms[t]
        return (k[2], k[3]) if k[0] == "b" else (None, None)

    def dorder(self, t, s):
        """discriminant of a variant"""
        ks = self.e.terms[t]
        if len(ks) > 2 and s.s in ks[2]:
            return I(ks[2][s.s], ks[2][s.s])
        for vs in self.ORDERS:
            if s.s in vs:
                return I(vs.index(s.s), vs.index(s.s))
        return None

    ORDERS = [("None", "Some"), ("Ok", "Err"), ("Continue", "Break"), ("Null", "Bool", "Number", "String", "Sequence", "Mapping", "Tagged"), ("PosInt", "NegInt", "Float")]

    def fit(self, lo, hi, ty):
        r = RANGES.get(ty)
        if r and not (r[0] <= lo and hi <= r[1]):
            return I(r[0], r[1])
        return I(lo, hi)

    def app(self, name, av, at, t):
        full, last = base(name)
        f = self.fns.get(last) or self.fns.get(full)
        if f:
            r = f(self, av, at, t)
            if r is not None:
                return r
        a = av[0] if av else None
        if full in ("Arc::new", "Rc::new", "Box::new") and len(av) == 1:
            return a
        if last in ("integer_max", "integer_min", "max", "min") and len(av) == 2 and all(isinstance(x, I) for x in av):
            f = max if last.endswith("max") else min
            for x, y in (av, av[::-1]):
                if (x.lo >= y.hi if f is max else x.hi <= y.lo):
                    return x
            return I(f(av[0].lo, av[1].lo), f(av[0].hi, av[1].hi))
        if last == "EQ" and len(av) == 2:
            return self.eq(av[0], av[1], at[0] == at[1])
        if len(av) == 2 and last in ("eq", "ne") and not isinstance(a, (F,)):
            r = self.eq(av[0], av[1], at[0] == at[1])
            return r if r is None or last == "eq" else I(1 - r.lo, 1 - r.lo)
        if len(av) == 2 and last in ("cmp", "partial_cmp") and isinstance(a, (S, X)):
            c = self.cmp(av[0], av[1], at[0] == at[1])
            o = ordering(c)
            return None if o is None else o if last == "cmp" else Some(o)
        if last == "reverse" and isinstance(a, Adt) and a.name == "Ordering":
            return Adt("Ordering", {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[a.variant])
        if last == "then" and isinstance(a, Adt) and a.name == "Ordering" and len(av) == 2:
            return av[1] if a.variant == "Equal" else a
        if last in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne") and isinstance(a, Adt) and a.name == "Ordering":
            return B(a.variant in {"is_lt": ("Less",), "is_le": ("Less", "Equal"), "is_gt": ("Greater",), "is_ge": ("Greater", "Equal"), "is_eq": ("Equal",), "is_ne": ("Less", "Greater")}[last])
        if isinstance(a, F):
            c = a.classes
            tests = {"is_nan": {"nan"}, "is_infinite": {"-inf", "+inf"}, "is_finite": {"-fin", "-0", "+0", "+fin"}}
            if last in tests:
                s = tests[last]
                return TRUE if c <= s else FALSE if not (c & s) else None
            if last in ("is_sign_negative", "is_sign_positive"):
                if c == {"nan"} and a.val is not None:
                    return B((a.val < 0) == (last == "is_sign_negative"))   # the sign of the NaN
                if "nan" in c:
                    return None
                s = {"-inf", "-fin", "-0"} if last == "is_sign_negative" else {"+inf", "+fin", "+0"}
                return TRUE if c <= s else FALSE if not (c & s) else None
            if last == "classify":
                v = {"Nan"} if c == {"nan"} else {"Infinite"} if c <= {"-inf", "+inf"} else {"Zero"} if c <= {"-0", "+0"} else None
                if v is None and a.val is not None and c <= {"-fin", "+fin"}:
                    tiny = 1.1754943508222875e-38 if self.e.ty(at[0]) == "f32" else 2.2250738585072014e-308
                    v = {"Subnormal" if abs(a.val) < tiny else "Normal"}
                return Adt("FpCategory", v.pop()) if v else None
            if last == "copysign" and c == {"nan"}:
                return F("nan", "canonical-nan" if isinstance(av[1], F) else None)
            if last == "to_bits":
                if c == {"nan"}:
                    # NaNs with distinct payloads are a region of their own
                    return I(0x7ff8000000000000 + {"x": 1, "y": 2}.get(a.src, 0), 0x7ff8000000000000 + {"x": 1, "y": 2}.get(a.src, 0))
                if len(c) == 1:
                    one = {"+0": 0, "-0": 1 << 63, "+inf": 0x7ff << 52, "-inf": 0xfff << 52}.get(next(iter(c)))
                    if one is not None:
                        return I(one, one)
                    if a.src:
                        return I(1, (0x7ff << 52) - 1, "bits(%s)" % a.src) if c == {"+fin"} else I((1 << 63) + 1, (0xfff << 52) - 1, "bits(%s)" % a.src)
                return None
            if last in ("fract", "trunc", "floor", "ceil", "round", "abs", "signum") and conc(a) is not None and "nan" not in c:
                x = conc(a)
                if last == "abs":
                    return fconst(abs(x))
                if last == "signum":
                    return fconst(math.copysign(1.0, x))
                if math.isinf(x):
                    return F("nan", None) if last == "fract" else a
                y = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "fract": math.trunc}.get(last, lambda z: math.copysign(math.floor(abs(z) + 0.5), z) if abs(z) < 2 ** 52 else z)(x)
                return fconst(math.copysign(abs(x - y), x) if last == "fract" else math.copysign(float(y), x) if y == 0 else float(y))
            if last in ("abs",) and "nan" not in c:
                return F({x.replace("-", "+") for x in c}, a.src if not any(x.startswith("-") for x in c) else None)
            if last == "partial_cmp" and len(av) == 2 and isinstance(av[1], F):
                c = self.cmp(a, av[1], at[0] == at[1])
                if c == {"u"}:
                    return NONE
                if c and "u" not in c:
                    return Some(ordering(c))
        if isinstance(a, I):
            if last == "is_negative":
                return TRUE if a.hi < 0 else FALSE if a.lo >= 0 else None
            if last in ("abs", "wrapping_abs", "unsigned_abs", "saturating_abs") and a.lo >= 0:
                return a
            if last in ("abs", "wrapping_abs", "unsigned_abs", "wrapping_neg", "saturating_abs", "signum") and a.const is not None and RANGES.get(self.e.ty(at[0])):
                r, n = RANGES[self.e.ty(at[0])], a.const
                if last == "wrapping_neg":
                    n = -n if r[0] <= -n <= r[1] else r[0] if r[0] < 0 else (-n) % (r[1] + 1)
                elif last == "signum":
                    n = (n > 0) - (n < 0)
                else:
                    n = abs(n)
                    if n > r[1] and last != "unsigned_abs":
                        n = {"wrapping_abs": r[0], "saturating_abs": r[1]}.get(last)
                if n is not None:
                    return I(n, n)
            if last == "is_positive":
                return TRUE if a.lo > 0 else FALSE if a.hi <= 0 else None
            if last in ("cmp",) and len(av) == 2:
                return ordering(self.cmp(a, av[1], at[0] == at[1]))
            if last == "partial_cmp" and len(av) == 2:
                o = ordering(self.cmp(a, av[1], at[0] == at[1]))
                return Some(o) if o else None
            if last in ("try_from", "try_into"):
                r = None
                ty = self.e.ty(t) or ""
                for n, rg in RANGES.items():
                    if ty.startswith("Result<%s," % n):
                        r = rg
                if r:
                    if r[0] <= a.lo and a.hi <= r[1]:
                        return Adt("Result", "Ok", {"0": a})
                    if a.hi < r[0] or a.lo > r[1]:
                        return Adt("Result", "Err", {})
            if last in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub") and len(av) == 2 and isinstance(av[1], I):
                r = RANGES.get(self.e.ty(at[0]))
                if av[1].const == 0:
                    return a
                if r and av[1].const is not None:
                    sg = 1 if last.endswith("add") else -1
                    lo, hi = a.lo + sg * av[1].lo, a.hi + sg * av[1].hi
                    if last.startswith("sat"):
                        return I(max(lo, r[0]), max(min(hi, r[1]), r[0]))
                    return self.fit(lo, hi, self.e.ty(at[0]))
            if last in ("saturating_mul", "wrapping_mul", "checked_mul") and len(av) == 2 and isinstance(av[1], I) and RANGES.get(self.e.ty(at[0])):
                r = RANGES[self.e.ty(at[0])]
                ps = [x * y for x in (a.lo, a.hi) for y in (av[1].lo, av[1].hi)]
                lo, hi = min(ps), max(ps)
                if last.startswith("sat"):
                    return I(min(max(lo, r[0]), r[1]), max(min(hi, r[1]), r[0]))
                if last == "checked_mul":
                    return Some(I(lo, hi)) if r[0] <= lo and hi <= r[1] else NONE if lo > r[1] or hi < r[0] else None
                return self.fit(lo, hi, self.e.ty(at[0]))
            if last in ("checked_sub", "checked_add") and len(av) == 2 and isinstance(av[1], I):
                ty = self.e.ty(at[0])
                r = RANGES.get(ty)
                if r:
                    lo, hi = (a.lo - av[1].hi, a.hi - av[1].lo) if last == "checked_sub" else (a.lo + av[1].lo, a.hi + av[1].hi)
                    if r[0] <= lo and hi <= r[1]:
                        return Some(I(lo, hi))
                    if hi < r[0] or lo > r[1]:
                        return NONE
        if last.startswith("index_fail_"):
            b = av[1] if len(av) > 1 else None
            n = None
            if isinstance(a, S) and isinstance(a.s, str):
                if isinstance(b, Adt) and b.name.startswith("Range"):
                    r = cut(a.s, b, last.endswith("str"))[0]
                    return None if r is None else B(r)
                n = len(a.s.encode()) if "\ue000" not in a.s and "\ue001" not in a.s else None
            elif hasattr(a, "xs") and not getattr(a, "open", False):
                n = len(a.xs)
            if n is not None and isinstance(b, I):
                return FALSE if b.hi < n and b.lo >= 0 else TRUE if b.lo >= n else None
            if n is not None and isinstance(b, Adt) and b.name.startswith("Range"):
                lo, hi = b.fields.get("start"), b.fields.get("end")
                if all(x is None or isinstance(x, I) and x.const is not None for x in (lo, hi)):
                    x, y = lo.lo if lo else 0, (hi.lo + (b.name == "RangeToInclusive") if hi else n)
                    return B(not x <= y <= n)
            return None
        if isinstance(a, S):
            b = av[1] if len(av) > 1 else None
            if last in ("as_ref", "as_str", "borrow", "deref", "to_owned", "to_string", "clone", "into", "from", "as_bytes", "into_boxed_str", "into_string"):
                return a
            if last == "len" and isinstance(a.s, str) and ("\ue000" in a.s or "\ue001" in a.s):
                return I(len(a.s), 2 ** 63 - 1)
            if last == "len":
                n = len(a.s.encode()) if isinstance(a.s, str) else None
                return I(n, n) if n is not None else None
            if last == "is_empty":
                return B(len(a.s) == 0)
            if isinstance(a.s, str) and not ("\ue000" in a.s or "\ue001" in a.s):
                r = self.textop(a.s, last, av, at)
                if r is not None:
                    return r
            if last in ("index", "get", "get_unchecked") and isinstance(b, Adt) and b.name.startswith("Range") and isinstance(a.s, str):
                bad, r = cut(a.s, b, (self.e.ty(at[0]) or "").lstrip("&") in ("str", "String"))
                if bad:
                    return NONE if last == "get" else None
                return None if r is None else Some(S(r)) if last == "get" else S(r)
            pats = None
            if isinstance(b, S):
                pats = [b.s]
            elif isinstance(b, I) and b.const is not None and self.e.ty(at[1]) == "char":
                pats = [chr(b.const)]
            elif isinstance(b, Adt) and b.fields and all(isinstance(x, I) and x.const is not None for x in b.fields.values()):
                pats = [chr(x.const) for x in b.fields.values()]
            if pats is None and isinstance(a.s, str) and len(av) == 2 and last in ("starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix", "trim_start_matches", "trim_end_matches", "trim_matches", "find", "split_once", "rfind") and not ("\ue000" in a.s or "\ue001" in a.s):
                # a predicate on characters: the characters of the text it accepts
                pats = self.accepted(at[1], sorted(set(a.s[:1] if last in ("starts_with", "strip_prefix") else a.s[-1:] if last in ("ends_with", "strip_suffix") else a.s)))
                if pats == [] and last in ("find", "rfind"):
                    return NONE
                if pats and last in ("find", "rfind"):
                    i = next(i for i in (range(len(a.s)) if last == "find" else range(len(a.s) - 1, -1, -1)) if a.s[i] in pats)
                    n = len(a.s[:i].encode("utf8", "surrogatepass"))
                    return Some(I(n, n))
            if pats is not None and isinstance(a.s, str):
                if last == "starts_with":
                    return B(any(a.s.startswith(p) for p in pats))
                if last == "ends_with":
                    return B(any(a.s.endswith(p) for p in pats))
                if last == "contains":
                    return B(any(p in a.s for p in pats))
                if last in ("strip_prefix", "strip_suffix"):
                    for p in pats:
                        if last == "strip_prefix" and a.s.startswith(p):
                            return Some(S(a.s[len(p):]))
                        if last == "strip_suffix" and a.s.endswith(p):
                            return Some(S(a.s[:len(a.s) - len(p)]))
                    return NONE
                if last in ("trim_start_matches", "trim_end_matches", "trim_matches", "trim_left_matches", "trim_right_matches"):
                    r, ch = a.s, True
                    while ch:
                        ch = False
                        for p in pats:
                            if p and not last.startswith(("trim_end", "trim_right")) and r.startswith(p):
                                r, ch = r[len(p):], True
                            if p and not last.startswith(("trim_start", "trim_left")) and r.endswith(p):
                                r, ch = r[:len(r) - len(p)], True
                    return S(r)
                if last == "split_once":
                    for p in pats:
                        if p in a.s:
                            x, _, y = a.s.partition(p)
                            return Some(Adt("tuple", None, {"0": S(x), "1": S(y)}))
                    return NONE
        return None

    def accepted(self, t, chars):
        from scalar import lambda_of, apply1
        lb = lambda_of(self.e, t)
        out = []
        for ch in chars:
            r = apply1(self, lb, t, I(ord(ch), ord(ch)))
            if r is None:
                return None
            if r.const:
                out.append(ch)
        return out

    def textop(self, s, last, av, at):
        """further methods of str and of byte slices, on a text that is known"""
        if last == "is_ascii" and len(av) == 1:
            return B(s.isascii())
        if len(av) == 1 and last in ("trim", "trim_start", "trim_end", "trim_left", "trim_right"):
            ws = "".join(c for c in s if c.isspace() and not "\x1c" <= c <= "\x1f")
            return S(s.lstrip(ws) if last in ("trim_start", "trim_left") else s.rstrip(ws) if last in ("trim_end", "trim_right") else s.strip(ws))
        if len(av) == 1 and last in ("trim_ascii", "trim_ascii_start", "trim_ascii_end"):
            ws = " \t\n\x0c\r"
            return S(s.lstrip(ws) if last.endswith("start") else s.rstrip(ws) if last.endswith("end") else s.strip(ws))
        n = av[1].const if len(av) > 1 and isinstance(av[1], I) else None
        b = s.encode("utf8", "surrogatepass")
        if last == "is_char_boundary" and n is not None:
            return B(n == len(b) or n < len(b) and b[n] & 0xC0 != 0x80)
        if last in ("split_at", "split_at_checked") and n is not None:
            try:
                if n > len(b):
                    raise ValueError
                r = Adt("tuple", None, {"0": S(b[:n].decode()), "1": S(b[n:].decode())})
                return Some(r) if last.endswith("checked") else r
            except ValueError:
                return NONE if last.endswith("checked") else None
        from sim import L
        if last == "lines" and len(av) == 1:
            xs = s.split("\n")
            if xs[-1] == "":
                xs.pop()
            return L([S(x[:-1] if x.endswith("\r") else x) for x in xs])
        p = av[1].s if len(av) > 1 and isinstance(av[1], S) else chr(n) if n is not None and (self.e.ty(at[1]) or "") == "char" else None
        if last in ("split", "rsplit", "split_terminator") and len(av) == 2 and p:
            xs = s.split(p)
            if last == "split_terminator" and xs[-1] == "":
                xs.pop()
            return L([S(x) for x in (xs[::-1] if last == "rsplit" else xs)])
        if last == "splitn" and len(av) == 3 and n and isinstance(av[2], (S, I)):
            q = av[2].s if isinstance(av[2], S) else chr(av[2].const) if av[2].const is not None else None
            return L([S(x) for x in s.split(q, n - 1)]) if q else None
        if last == "rsplit_once" and p:
            x, m, y = s.rpartition(p)
            return Some(Adt("tuple", None, {"0": S(x), "1": S(y)})) if m else NONE
        if last == "char_indices" and len(av) == 1:
            out, i = [], 0
            for ch in s:
                out.append(Adt("tuple", None, {"0": I(i, i), "1": I(ord(ch), ord(ch))}))
                i += len(ch.encode("utf8", "surrogatepass"))
            return L(out)
        if last == "split_whitespace" and len(av) == 1:
            return L([S(x) for x in s.split()])
        if last == "contains" and n is not None and (self.e.ty(at[1]) or "").lstrip("&") == "u8":
            return B(n in b)
        return None

    def eq(self, a, b, same):
        if same:
            return TRUE
        if isinstance(a, Adt) and isinstance(b, Adt):
            if a.variant != b.variant:
                return FALSE
            rs = []
            for n in set(a.fields) | set(b.fields):
                r = self.eq(a.fields.get(n), b.fields.get(n), False)
                if r == FALSE:
                    return FALSE
                rs.append(r)
            return TRUE if all(r == TRUE for r in rs) else None
        if isinstance(a, S) and isinstance(b, S):
            return B(a.s == b.s)
        if a is None or b is None:
            return None
        c = self.cmp(a, b, False)
        if c is None:
            return None
        if c == {"="}:
            return TRUE
        if "=" not in c:
            return FALSE
        return None

    # ---- facts
    def holds(self, t, dom):
        v = self.ev(t)
        if v is None:
            return None
        if isinstance(v, S):
            x = v.s
        elif isinstance(v, I):
            if "lo" in dom or "hi" in dom:
                lo, hi = dom.get("lo"), dom.get("hi")
                if lo is not None and v.hi < lo or hi is not None and v.lo > hi:
                    return False
            if "in" in dom:
                vals = [y for y in dom["in"] if isinstance(y, int)]
                if v.const is not None:
                    return v.const in vals
                if not any(v.lo <= y <= v.hi for y in vals):
                    return False
                return None
            if "not" in dom:
                vals = [y for y in dom["not"] if isinstance(y, int)]
                if v.const is not None:
                    return v.const not in vals
                if not any(v.lo <= y <= v.hi for y in vals):
                    return True
                return None
            lo, hi = dom.get("lo"), dom.get("hi")
            if (lo is None or v.lo >= lo) and (hi is None or v.hi <= hi):
                return True
            return None
        elif type(v).__name__ in ("L", "M"):
            n = len(v.xs if hasattr(v, "xs") else v.kv)
            if "in" in dom and list(dom["in"]) == [""]:
                return n == 0
            if "not" in dom and list(dom["not"]) == [""]:
                return n > 0
            return None
        else:
            return None
        if "in" in dom:
            return x in dom["in"]
        if "not" in dom:
            return x not in dom["not"]
        return True

    def dnf(self, d):
        """truth of a merged condition: True / False / None"""
        best = False
        for conj in d:
            st = True
            for m in conj:
                if m[0] == "merged":
                    r = self.dnf(m[1])
                else:
                    r = self.holds(m[1], {"in": [m[2]]} if m[3] else {"not": [m[2]]})
                if r is False:
                    st = False
                    break
                if r is None:
                    st = None
            if st is True:
                return True
            if st is None:
                best = None
        return best

    def dead(self, path):
        """some condition of the path is false; conditions shared between paths are decided once"""
        e = self.e
        up = e.__dict__.setdefault("_up", {})
        memo = self.memo.setdefault("dead", {})
        n, chain = path.node, []
        while n >= 0 and n not in memo:
            chain.append(n)
            m = up.get(n)
            if m is None:
                m = e.nodes[n][0]
                while m >= 0 and e.nodes[m][1][0] not in ("fact", "merged"):
                    m = e.nodes[m][0]
                up[n] = m
            n = m
        r = memo[n] if n >= 0 else False
        for n in reversed(chain):
            if not r:
                it = e.nodes[n][1]
                if it[0] == "fact":
                    r = self.holds(it[1], {"in": [it[2]]} if it[3] else {"not": [it[2]]}) is False
                elif it[0] == "merged":
                    r = self.dnf(it[1]) is False
            memo[n] = r
        return r

    def feasible(self, path):
        f = self._feasible(path)
        if f == "maybe" and path.end == "panic" and str(path.val[0]).startswith("slice index"):
            f = "no" if PANICS is None else f      # counted by C14 only
        if PANICS is not None and path.end == "panic":
            PANICS.append((f, self, path))
        return f

    def _feasible(self, path):
        if self.dead(path):
            return "no"
        res = "yes"
        for t, dom in path.facts.items():
            r = self.holds(t, dom)
            if r is False:
                return "no"
            if r is None:
                res = "maybe"
        for it in path.items:
            if it[0] == "merged":
                r = self.dnf(it[1])
                if r is False:
                    return "no"
                if r is None:
                    res = "maybe"
        return res

    # ---- free conditions
    def leaves(self, t, out, depth=0):
        """base terms the truth of a condition depends on; None entries mark what is not a free input"""
        e = self.e
        work, seen = [t], set()
        while work:
            t = work.pop()
            if t in seen or t not in e.terms:
                continue
            seen.add(t)
            k = e.terms[t]
            if k[0] == "y":
                if t in self.env and not opaque_value(self.env[t]):
                    continue
                if k[1] == "param":
                    out.add(t)
                elif k[1] == "ret":
                    c = e.call_of(t)
                    if c is None or c.kind == "rec":
                        out.add(None)    # what the function answers about its own result is not ours to choose
                    elif c.last.startswith("next"):
                        out.add(t)
                    else:
                        out.add(t)
                        work.extend(c.args)
                elif k[1] == "loop" and opaque_value(self.ev(k[3])):
                    work.append(k[3])    # no iteration at all is possible
                else:
                    out.add(None)
            elif k[0] == "f":
                # a projection with a known value is not a free input
                v = self.ev(t)
                if v is not None and not opaque_value(v):
                    continue
                b = t
                while e.terms[b][0] in ("f", "d", "S"):
                    b = e.terms[b][2] if e.terms[b][0] == "S" else e.terms[b][1]
                if e.terms[b][0] == "y" and e.terms[b][1] in ("param", "ret"):
                    out.add(t)
                else:
                    work.extend(e.children(t))
            else:
                work.extend(e.children(t))

    def free(self, path):
        """the conditions of `path` left open by the region are independent: some input takes it"""
        used = []
        e = self.e

        def fact(t):
            k = e.terms[t]
            if k[0] == "a" and str(k[1]).startswith("index_fail_"):
                return False
            inner = k[1] if k[0] == "D" else t
            ki = e.terms[inner]
            if k[0] == "D" and ki[0] == "y" and ki[1] == "ret" and (e.ty(inner) or "").startswith(("Result<", "std::result::Result<", "core::result::Result<")):
                return True    # fallible calls succeed or fail independently
            ls = set()
            self.leaves(t, ls)
            if None in ls or not ls:
                return False
            for other, o in used:
                if ls & other and not (t in e.subterms(o) or o in e.subterms(t)):
                    return False
            used.append((ls, t))
            return True
        for t, dom in path.facts.items():
            if self.holds(t, dom) is None and not fact(t):
                return False

        def atoms(d):
            for conj in d:
                for m in conj:
                    if m[0] == "merged":
                        yield from atoms(m[1])
                    else:
                        yield m
        for it in path.items:
            if it[0] == "merged" and self.dnf(it[1]) is None:
                seen = set()
                for m in atoms(it[1]):
                    if m[1] in seen or self.holds(m[1], {"in": [m[2]]} if m[3] else {"not": [m[2]]}) is not None:
                        continue
                    seen.add(m[1])
                    if not fact(m[1]):
                        return False
        return True

    # ---- loops
    def loop_choices(self):
        """possible values of the loop symbols: combinations of values reached from their initial values"""
        e = self.e
        back = {}
        for p in e.paths:
            if p.end == "back":
                for s, n in p.val[1]:
                    back.setdefault(s, []).append((n, p))
        banned = set()
        while True:
            sets = self.loop_sets(back, banned)
            if not isinstance(sets, set):
                break
            banned |= sets
        self.choice, self.memo = {}, {}
        return self.combos(sets) if sets else [{}]

    def combos(self, sets):
        keys = list(sets)
        return [dict(zip(keys, c)) for c in itertools.product(*(sets[k] for k in keys))]

    def loop_sets(self, back, banned):
        """{symbol: values}, or the set of symbols that turned out not to be enumerable"""
        e = self.e
        sets = {}
        syms = [s for s in back if s not in banned]
        while True:
            before = {s: len(v) for s, v in sets.items()}
            unknown = set()
            for s in syms:
                n = 1
                for v in sets.values():
                    n *= len(v)
                if n > 64:
                    return {max(sets, key=lambda x: len(sets[x]))}
                for ch in self.combos(sets):
                    self.choice, self.memo = ch, {}
                    vals = [self.ev(e.terms[s][3])]
                    if s in sets:
                        vals += [self.ev(nw) for nw, p in back[s] if self.feasible(p) != "no"]
                    for v in vals:
                        if v is None:
                            unknown.add(s)
                        elif s not in sets:
                            sets[s] = [v]
                        elif v not in sets[s]:
                            sets[s].append(v)
                            if len(sets[s]) >= 8:
                                return {s}
            if before == {s: len(v) for s, v in sets.items()}:
                bad = {s for s in unknown if s in sets}
                return bad or sets

    # ---- outcomes
    def outcomes(self, ends=("return",), paths=None):
        """[(feasibility, path, choice)] over paths with the given ends"""
        out = []
        chs = self.loop_choices()
        for ch in chs:
            self.choice, self.memo = ch, {}
            for p in self.e.paths if paths is None else paths.live(self) if isinstance(paths, Paths) else paths:
                if p.end not in ends:
                    continue
                f = self.feasible(p)
                if f == "maybe" and len(chs) == 1 and self.free(p):
                    f = "free"
                if PANICS is not None and p.end == "panic" and f == "free":
                    PANICS.append((f, self, p))
                if f != "no":
                    out.append((f, p, ch))
            if PANICS is not None and "panic" not in ends:
                for p in self.e.__dict__.setdefault("_panics", Paths(self.e, [p for p in self.e.paths if p.end == "panic"])).live(self):
                    self.feasible(p)
        self.choice, self.memo = {}, {}
        return out

    def at(self, ch):
        self.choice, self.memo = ch, {}
        return self


def ordering(c):
    if c is None or len(c) != 1:
        return None
    x = next(iter(c))
    return {"<": Adt("Ordering", "Less"), "=": Adt("Ordering", "Equal"), ">": Adt("Ordering", "Greater")}.get(x)


def conc(v):
    """the one float v stands for, or None"""
    if len(v.classes) != 1:
        return None
    c = next(iter(v.classes))
    return {"nan": float("nan"), "+inf": float("inf"), "-inf": float("-inf"), "+0": 0.0, "-0": -0.0}.get(c, v.val)


def narrow(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(float("inf"), x)


def fconst(x):
    return flt_const(repr(x))


def flt_const(x):
    try:
        v = float(x)
    except ValueError:
        return None
    if v != v:
        return F("nan", None)
    if v in (float("inf"), float("-inf")):
        return F("+inf" if v > 0 else "-inf", None)
    if v == 0:
        return F("-0" if str(x).startswith("-") else "+0", None, 0.0)
    return F("+fin" if v > 0 else "-fin", None, v)


def int_regions(ty, extra=()):
    """split the range of ty at 0, at the type boundaries, and at the given constants"""
    lo, hi = RANGES[ty]
    cuts = {lo, hi + 1, 0, 1}
    for n, (a, b) in RANGES.items():
        if n in ("bool", "char"):
            continue
        cuts |= {a, b + 1}
    for c in list(extra) + [2 ** b for b in (7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64)] + [-2 ** b for b in (53, 62)]:
        cuts |= {c, c + 1}
    cuts = sorted(c for c in cuts if lo <= c <= hi + 1)
    return [(a, b - 1) for a, b in zip(cuts, cuts[1:])]


def int_consts(entry):
    out = {k[1] for k in entry.terms.values() if k[0] == "i" and isinstance(k[1], int)}
    ev = Ev(entry, {})
    for t, k in entry.terms.items():
        if k[0] in ("b", "c", "a", "u"):
            v = ev.ev(t)
            if isinstance(v, I) and v.const is not None:
                out.add(v.const)
    return sorted(out)
