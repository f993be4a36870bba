"""Compares what the text serializer's methods emit for abstract values with the event stream serde's protocol calls for."""
from sersim import *
from sertrees import *

SCALARS = [("serialize_bool", [B(True)], "bool"), ("serialize_i8", [I(1, 1)], "i8"), ("serialize_i16", [I(1, 1)], "i16"), ("serialize_i32", [I(1, 1)], "i32"), ("serialize_i64", [I(1, 1)], "i64"),
           ("serialize_i128", [I(1, 1)], "i128"), ("serialize_u8", [I(1, 1)], "u8"), ("serialize_u16", [I(1, 1)], "u16"), ("serialize_u32", [I(1, 1)], "u32"), ("serialize_u64", [I(1, 1)], "u64"),
           ("serialize_u128", [I(1, 1)], "u128"), ("serialize_f32", [F({"+fin"}, val=1.5)], "f32"), ("serialize_f64", [F({"+fin"}, val=1.5)], "f64"), ("serialize_f64", [F({"+inf"})], "inf"), ("serialize_f32", [F({"nan"})], "nan"),
           ("serialize_char", [I(97, 97)], "char"), ("serialize_none", [], "none"), ("serialize_unit_struct", [S("T")], "unit_struct")]


class Leaf(tuple):
    def __repr__(self):
        return f"('{self[1][10:]}', {self[2]!r})"


def leaves():
    for m, a, n in SCALARS:
        yield Leaf(("call", m, a))


def shape(t):
    """a compact rendering of an abstract value"""
    k = t[0]
    if k == "call":
        return t[1][len("serialize_"):]
    if k == "str":
        return f'"{t[1]}"'
    if k == "text":
        return f'collect_str("{t[1]}")'
    if k == "unit":
        return "()"
    if k == "uv":
        return f"unit_variant({t[1]})"
    if k in ("some", "nts"):
        return f"{'Some' if k == 'some' else 'newtype'}({shape(t[1])})"
    if k == "ntv":
        return f"newtype_variant({t[1]}, {shape(t[2])})"
    if k in ("seq", "tv"):
        return f"{'tuple_variant(' + t[1] + ')' if k == 'tv' else t[1]}[{', '.join(shape(c) for c in t[2])}]"
    if k in ("struct", "sv"):
        return f"{'struct' if k == 'struct' else 'struct_variant(' + t[1] + ')'}{{{', '.join(a + ': ' + shape(c) for a, c in t[-1])}}}"
    return f"map(len {len(t[3]) if t[1] is True else t[1] or 'unknown'}, by {t[2]}){{{', '.join(shape(a) + ': ' + shape(c) for a, c in t[3])}}}"


def size(ts):
    return len("; ".join(map(shape, ts)))


def wanted(ts):
    out = []
    try:
        for t in ts:
            out += [("doc",)] + expect(t) + [("/doc",)]
    except Nested:
        return "SerializeNestedEnum"
    return out


class Traced(SerSim):
    def __init__(self, R):
        SerSim.__init__(self, R)
        self.calls = []
        self.depth = 0

    def m(self, trait, name, *args):
        self.depth += 1
        try:
            r = SerSim.m(self, trait, name, *args)
            if self.depth == 1:
                self.calls.append((self.methods[trait, name], len(self.log(r[1]).xs)))
            return r
        except (Fail, Panic, Unknown):
            if self.depth == 1:
                self.calls.append((self.methods.get((trait, name)), -1))
            raise
        finally:
            self.depth -= 1


def runs(deep, consts=()):
    """abstract histories: lists of values serialized one after the other"""
    seen = set()
    for t in trees(deep):
        yield [t]
    for c in leaves():
        yield [c]
        for w in wrap(c):
            yield [w]
            for x in narrow(w):
                yield [x]
    for n in NAMES + [x for x in consts if x not in NAMES]:
        for t in named(n):
            yield [t]
    small = LEAVES + [w for c in LEAVES for w in narrow(c)] + EMPTY
    for a in small:
        if wanted([a]) != "SerializeNestedEnum":
            for b in small:
                yield [a, b]


def literals(sim):
    """texts near the ones the code itself mentions"""
    out = set()
    for e in sim.by.values():
        for k in e.terms.values() if isinstance(e.terms, dict) else e.terms:
            if k[0] == "s" and isinstance(k[1], str) and 0 < len(k[1]) <= 16:
                out |= {k[1], k[1] + "a", "a" + k[1], "!" + k[1], "a" + k[1] + "a"}
    return sorted(out)[:120]


def compare(ck, judge):
    """judge(ts, want, got) -> complaint or None; got: list of events, the kind of an error, or ('panic', text)"""
    R, = (run.analyse(SER_GROUP),)
    sim = Traced(R)
    for e in sim.by.values():
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut")
        ck.use(e)
    ck.floor("serializer methods", len(sim.methods), 40)
    try:
        st0 = sim.initial()
    except Unknown as x:
        ck.undecided("initial", f"{x}")
        return
    budget = run.Budget(500 if ck.deep else 300)
    bad, n, unk = {}, 0, {}
    for ts in runs(ck.deep, literals(sim)):
        if budget.over():
            ck.undecided("time", "the histories were not all explored")
            break
        want = wanted(ts)
        n += 1
        sim.calls.clear()
        sim.depth = 0
        st = st0
        try:
            for t in ts:
                st = sim.drive(t, st)
            got = sim.events(st)
        except Fail as f:
            got = f.kind
        except Panic as f:
            got = ("panic", str(f))
        except Unknown as f:
            unk.setdefault(str(f)[:200], ts)
            ck.obl(None, f"history:{str(f)[:60]}", f"{f} in {'; '.join(map(shape, ts))}")
            continue
        why = judge(ts, want, got)
        if why is None:
            ck.obl(True, "history")
            if n % 1500 == 1:
                ck.sample(f"{'; '.join(map(shape, ts))} -> {got if isinstance(got, str) else ' '.join(show(x) for x in got)}")
            continue
        # the first call after which the events are not those wanted
        at = None
        for e, k in sim.calls:
            at = e
            if k < 0 or not isinstance(want, list) or not isinstance(got, list) or [x[:2] for x in got[:k]] != [x[:2] for x in want[:k]]:
                break
        key = (why[0], at.name if at else "?")
        if key not in bad or size(ts) < size(bad[key][0]):
            bad[key] = (ts, why, at)
    ck.count("histories", n)
    ck.count("state transitions", sim.transitions)
    ck.count("distinct states", len(set().union(*sim.seen.values())) if sim.seen else 0)
    ck.floor("histories", n, 10000)
    for (kind, name), (ts, why, at) in sorted(bad.items(), key=lambda kv: size(kv[1][0]))[:6]:
        ck.obl(False, f"{kind}:{name}", f"serializing {'; '.join(map(shape, ts))}: {why[1]}", f"{name} {at.span if at else ''}")


def show(x):
    return x[0] + (f"<{x[1]}>" if len(x) > 1 and x[1] else "") + (f"={x[2]}" if len(x) > 2 and isinstance(x[2], str) else "")


def render(evs):
    return evs if isinstance(evs, str) else evs[1] if isinstance(evs, tuple) else " ".join(show(x) for x in evs)
