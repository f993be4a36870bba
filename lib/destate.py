"""The streaming deserializer's state in traces: which type it is, which fields play which part, and how a nested state derives from its parent."""
from absval import *
import run

DE_GROUP = dict(entries=["de|<&mut * as Deserializer>*", "de|<*Access*", "de|<* as VariantAccess>*"], opaque=["*de::invalid_type"], max_paths=8000)
SCALAR_GROUP = dict(entries=["de|<&mut * as Deserializer>*"], opaque=["*de::invalid_type", "*visit_sequence", "*visit_mapping", "*error::fix_mark"], max_paths=40000)
TOP_GROUP = dict(entries=["de|<Deserializer as *"], opaque=["*DeserializerFromEvents as Deserializer*", "*Loader*"], max_paths=4000)

INTS = ("u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize")


class DE:
    def __init__(self, ck, R):
        self.R = R
        names = {e.name[len("<&mut "):].split(" as ")[0] for e in R.entries if e.name.startswith("<&mut ") and " as Deserializer>" in e.name and e.module == "de"}
        self.name = names.pop() if len(names) == 1 else None
        if self.name is None:
            ck.violation("anchor:state", "no unique `&mut State` deserializer over loaded events was found in module de")
            return
        self.fields = {}
        for e in R.entries:
            for t, k in e.terms.items():
                if k[0] == "f" and e.ty(k[1]) == self.name:
                    self.fields[k[3]] = e.ty(t)
                elif k[0] == "A" and e.ty(t) == self.name and k[4]:
                    for n, x in zip(k[4], k[3]):
                        self.fields.setdefault(n, e.ty(x))
        self.pos = self._pos()
        ints = [n for n, ty in self.fields.items() if ty in INTS]
        self.budget = ints[0] if len(ints) == 1 else self._budget(ints)
        ctr = [n for n, ty in self.fields.items() if ty in ("&mut usize", "&mut u64", "&mut u32") and n != self.pos]
        self.counter = ctr[0] if len(ctr) == 1 else None
        by = lambda pred: next((n for n, ty in self.fields.items() if ty and pred(ty)), None)
        self.document = by(lambda ty: ty.endswith("Document"))
        self.path = by(lambda ty: ty.endswith("Path"))
        self.enum = by(lambda ty: ty.startswith("Option<") and n_not(ty))

    def _budget(self, ints):
        for e in self.R.entries:
            for p in e.paths:
                for c in p.calls():
                    if c.last in ("visit_seq", "visit_map", "visit_newtype_struct"):
                        for st in self.states(e, c.args[1]):
                            f = e.fields(st)
                            for n in ints:
                                if n in f and self.delta(e, f[n], n) not in (None, 0):
                                    return n
        return None

    def _pos(self):
        for e in self.R.entries:
            for t, k in e.terms.items():
                if k[0] == "a" and base(k[1])[1] in ("get", "index", "get_unchecked") and len(k[2]) == 2:
                    for x in e.subterms(k[2][1]):
                        kx = e.terms[x]
                        if kx[0] == "f" and e.ty(kx[1]) == self.name and e.ty(x) == "&mut usize":
                            return kx[3]
        return "pos"

    def entries(self, *traits):
        for e in self.R.entries:
            if e.module == "de" and (not traits or any(f" as {t}>" in e.name for t in traits)):
                yield e

    # ---- states inside terms
    def states(self, e, t):
        """terms denoting deserializer states handed over inside t: aggregates, or the caller's own state"""
        out, seen = [], set()
        work = [t]
        while work:
            t = work.pop()
            if t in seen or t not in e.terms:
                continue
            seen.add(t)
            k = e.terms[t]
            ty = e.ty(t) or ""
            if k[0] == "A" and ty == self.name:
                out.append(t)
                continue
            if k[0] == "S":
                work.append(k[2])
                continue
            if k[0] == "A":
                work.extend(k[3])
                continue
            if ty in (self.name, "&mut " + self.name, "&" + self.name):
                out.append(t)
        return out

    def get(self, e, st, role):
        """term of a field of a state, or 'own' when it is the caller's unchanged state"""
        k = e.terms[st]
        if k[0] == "A":
            return e.fields(st).get(role)
        # the caller's state itself, unmodified
        while k[0] in ("d", "f", "S"):
            k = e.terms[k[2] if k[0] == "S" else k[1]]
        if k[0] == "y" and k[1] == "param":
            return "own"
        return None

    def own(self, e, t, role):
        """t is the field `role` of the caller's state"""
        if t == "own":
            return True
        k = e.terms.get(t)
        return bool(k) and k[0] == "f" and k[3] == role and e.ty(k[1]) == self.name

    def delta(self, e, t, role=None, d=0):
        """change of the budget term t relative to the caller's budget: int, ('const', n), 'bad', or None if not understood"""
        role = role or self.budget
        if t == "own":
            return 0
        if t is None or d > 8:
            return None
        k = e.terms.get(t)
        if k is None:
            return None
        if self.own(e, t, role):
            return 0
        if k[0] == "i":
            return ("const", k[1])
        if k[0] == "S":
            return self.delta(e, k[2], role, d + 1)
        if k[0] == "c":
            return self.delta(e, k[2], role, d + 1)
        if k[0] == "f" and k[2] == "Some":
            a = e.terms.get(k[1])
            if a and a[0] == "a" and base(a[1])[1] in ("checked_sub", "checked_add"):
                return self._shift(e, a[2], -1 if base(a[1])[1] == "checked_sub" else 1, role, d)
        if k[0] == "b" and k[1] in ("Sub", "Add"):
            return self._shift(e, [k[2], k[3]], -1 if k[1] == "Sub" else 1, role, d)
        if k[0] == "a" and base(k[1])[1] in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add"):
            # what happens at the end of the range is decided by the evaluation with an exhausted budget
            return self._shift(e, k[2], -1 if base(k[1])[1].endswith("sub") else 1, role, d)
        if k[0] == "a" and base(k[1])[1] in ("integer_max", "integer_min", "max", "min"):
            ds = [self.delta(e, x, role, d + 1) for x in k[2]]
            if base(k[1])[1].endswith("max"):
                # no less than either: a constant (or more than was given) can raise the budget
                return "bad" if any(isinstance(x, tuple) and x[1] > 0 or isinstance(x, int) and x > 0 for x in ds) and len(ds) == 2 else None
            return None    # never more than either
        if k[0] == "y" and k[1] == "loop":
            return self.delta(e, k[3], role, d + 1)
        return None

    def _shift(self, e, args, sign, role, d):
        x, n = self.delta(e, args[0], role, d + 1), e.int(args[1])
        if n is None or x is None or x == "bad":
            return None
        return ("const", x[1] + sign * n) if isinstance(x, tuple) else x + sign * n

    def env(self, e, role, value):
        """bind the caller's field `role` to an abstract value"""
        out = {}
        for t, k in e.terms.items():
            if k[0] == "f" and k[3] == role and e.ty(k[1]) == self.name and e.terms[k[1]][0] != "A":
                out[t] = value
        return out

    def event(self, e, p, pos=None):
        """possible kinds of the event the path looked at first, or None"""
        for it in p.items:
            if it[0] == "fact":
                k = e.terms[it[1]]
                if k[0] == "D" and (e.ty(k[1]) or "").endswith("Event"):
                    v = p.variants(k[1])
                    return v
        return None


def n_not(ty):
    return "Enum" in ty or "enum" in ty
