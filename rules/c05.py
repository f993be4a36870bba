from absval import *
from model import *
import run

WHAT = ("For every pair of equivalence classes of operands (number representations and float classes, value variants, tags with and without bangs, mapping contents) the extracted eq, "
        "partial_cmp/cmp and hash functions are evaluated as one table and checked for coherence: equal values hash to the same events and compare as Equal, unequal ones do not, swapping operands "
        "mirrors the order, and hashing or ordering a mapping must pass through an order-insensitive accumulator or a sort.")
ASSUMES = ["std and indexmap eq/cmp/hash of String, Vec, integers, f64 and IndexMap are coherent and IndexMap equality ignores order"]

MIRROR = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}


def rec_eq(order):
    def f(ev, av, at, c):
        return ev.eq(av[0], av[1], False) if len(av) == 2 else None
    return f


def rec_cmp(partial):
    def f(ev, av, at, c):
        if len(av) < 2:
            return None
        o = ordering(ev.cmp(av[0], av[1], False)) if av[0] is not None and av[1] is not None else None
        return None if o is None else Some(o) if partial else o
    return f


FNS = {"call:eq": rec_eq(None), "call:partial_cmp": rec_cmp(True), "call:cmp": rec_cmp(False), "call:total_cmp": rec_cmp(False), "call:iter_cmp_by": rec_cmp(False)}


def outcome(e, a, b, order):
    """definite result of a binary function on two abstract operands, or None"""
    ev, rs = results(e, {e.params[0][0]: a, e.params[1][0]: b}, order, FNS)
    vals = [v for f, p, v, ch in rs]
    if not vals or any(v is None for v in vals):
        return None
    return vals[0] if all(v == vals[0] for v in vals) else None


def as_ord(v):
    """Less/Equal/Greater, 'None' for unordered, None if unknown"""
    o = opt(v)
    if o is not None:
        if o[0] == "None":
            return "None"
        v = o[1]
    return v.variant if isinstance(v, Adt) and v.name == "Ordering" else None


def hash_events(e, v):
    """definite sequence of (type, value) written to the hasher, or None"""
    st = e.params[1][0]
    ev = Ev(e, {e.params[0][0]: v}, {}, FNS)
    seqs = []
    for f, p, ch in ev.outcomes(("return",)):
        ev.at(ch)
        if any(it[0] == "loop" for it in p.items):
            return None
        seq = []
        for c in p.all_calls():
            if c.last in ("hash", "hash_slice") or c.last.startswith("write"):
                if len(c.args) < 2:
                    return None
                if st not in e.subterms(c.args[-1] if c.last.startswith("hash") else c.args[0]) and not derives(e, c.args[-1] if c.last.startswith("hash") else c.args[0], st):
                    return None
                a = ev.ev(c.args[0] if c.last.startswith("hash") else c.args[1])
                if a is None:
                    return None
                ty = (c.selfty or "?") if c.last.startswith("hash") else c.name
                ty = ty.replace("&", "").replace("String", "str").replace("mut ", "")
                seq.append((ty, nosrc(a)))
        seqs.append(seq)
    if not seqs or any(s != seqs[0] for s in seqs):
        return None
    return seqs[0]


def nosrc(v):
    return I(v.lo, v.hi) if isinstance(v, I) and v.const is not None else v


def derives(e, t, base):
    """t is a (possibly havocked) state of base"""
    seen = set()
    work = [t]
    while work:
        t = work.pop()
        if t == base:
            return True
        if t in seen or t not in e.terms:
            continue
        seen.add(t)
        k = e.terms[t]
        if k[0] == "y" and k[1] == "havoc":
            work.append(k[3])
        else:
            work.extend(e.children(t))
    return False


def table(ck, name, classes, related, eqs, cmps, hashes):
    """classes: (label, value); related(a,b) -> (order-environment, expected '=' '<' '>' 'x'(unequal, any order) 'u'(unordered))"""
    for la, a, in classes:
        for lb, b, order, exp in related(la, a):
            key = f"{la}~{lb}"
            want_eq = exp == "="
            for e in eqs:
                r = outcome(e, a, b, order)
                if isinstance(r, I) and r.const is not None:
                    ck.obl(bool(r.const) == want_eq, f"{e.name}:{key}", f"{la} and {lb} must {'' if want_eq else 'not '}be equal", e.span)
                else:
                    ck.undecided(f"{e.name}:{key}")
            for e in cmps:
                r = as_ord(outcome(e, a, b, order))
                m = as_ord(outcome(e, b, a, order))
                if r is None:
                    ck.undecided(f"{e.name}:{key}")
                    continue
                if exp == "=":
                    ck.obl(r == "Equal", f"{e.name}:{key}", f"equal values {la} and {lb} must compare as Equal, got {r}", e.span)
                else:
                    ck.obl(r != "Equal", f"{e.name}:{key}", f"unequal values {la} and {lb} must not compare as Equal", e.span)
                    if exp in "<>":
                        ck.obl(r == {"<": "Less", ">": "Greater"}[exp], f"{e.name}:{key}:order", f"{la} is {'below' if exp == '<' else 'above'} {lb}, got {r}", e.span)
                if m is not None:
                    ck.obl(m == MIRROR.get(r, r), f"{e.name}:{key}:mirror", f"comparing {la} with {lb} gives {r} but {m} when swapped", e.span)
            if exp == "=":
                for e in hashes:
                    x, y = hash_events(e, a), hash_events(e, b)
                    if x is None or y is None:
                        ck.undecided(f"{e.name}:{key}")
                    else:
                        ck.obl(x == y, f"{e.name}:{key}", f"{la} and {lb} are equal but hash differently: {x} / {y}", e.span)


# ---- numbers
def num_classes():
    out = []
    for lab, k, lo, hi in (("PosInt0", "pos", 0, 0), ("PosInt1", "pos", 1, 1), ("PosInt2", "pos", 2, 2), ("PosInt3", "pos", 3, 3), ("PosInt", "pos", 4, 2 ** 63 - 1), ("PosIntBig", "pos", 2 ** 63, 2 ** 64 - 1),
                           ("NegInt", "neg", -2 ** 63, -2), ("NegInt-1", "neg", -1, -1)):
        out.append((lab, k, lo, hi))
    return out


def numbers():
    cl = []
    for lab, k, lo, hi in num_classes():
        cl.append((lab, k, I(lo, hi, "x"), I(lo, hi, "y")))
    for c in FCLASSES:
        cl.append((f"Float[{c}]", "flt", F(c, "x"), F(c, "y")))
    return cl


RANK = {"-inf": 0, "-fin": 1, "-0": 2, "+0": 2, "+fin": 3, "+inf": 4}


def num_related(wrap):
    cl = numbers()

    def rel(la, a):
        k0, pa = next((k, p) for l, k, p, q in cl if l == la)
        for lb, k, p, q in cl:
            b = wrap(mknum(k, q))
            if k != k0:
                # mathematically ordered for integers; integers and floats are merely unequal
                exp = "x" if "flt" in (k, k0) else "<" if k0 == "neg" else ">"
                yield lb, b, {}, exp
            elif k == "flt":
                ca, cb = next(iter(pa.classes)), next(iter(q.classes))
                if "nan" in (ca, cb):
                    yield lb, b, {}, "=" if ca == cb else "x"
                elif RANK[ca] != RANK[cb]:
                    yield lb, b, {}, "<" if RANK[ca] < RANK[cb] else ">"
                elif ca in ("+fin", "-fin"):
                    for o in "<=>":
                        yield lb + o, wrap(mknum(k, F(cb, "x" if o == "=" else "y"))), {("x", "y"): o}, o
                else:
                    yield lb, b, {}, "="
            elif la != lb:
                yield lb, b, {}, "<" if pa.hi < q.lo else ">"
            elif q.const is not None:
                yield lb, b, {}, "="
            else:
                for o in "<=>":
                    yield lb + o, wrap(mknum(k, I(q.lo, q.hi, "x" if o == "=" else "y"))), {("x", "y"): o}, o
    return [(l, wrap(mknum(k, p))) for l, k, p, q in cl], rel


# ---- tags
R0, R1 = "\ue000", "\ue001"


def tag_strings(consts=()):
    out = ["!", "!!", R0, "!" + R0, "!!" + R0, R1, "!" + R1, R0 + "!", "!" + R0 + "!", "a", "!a", "A", "!A", "!<a>"]
    for c in consts:
        if c and "!" not in c:
            out += [c, "!" + c]
    return list(dict.fromkeys(out))


def canon(s):
    return s[1:] if s.startswith("!") and len(s) > 1 else s


def mktag(s):
    return Adt("Tag", None, {"string": S(s)})


def lits(es):
    return sorted({k[1] for e in es for k in e.terms.values() if k[0] == "s" and isinstance(k[1], str)})


def tag_related(wrap, consts):
    ts = tag_strings(consts)

    def rel(la, a):
        for s in ts:
            x, y = canon(la[4:]), canon(s)
            yield "tag:" + s, wrap(s), {}, "=" if x == y else "<" if x < y else ">"
    return [("tag:" + s, wrap(s)) for s in ts], rel


# ---- values
def value_classes():
    c = [("Null", Val("Null")), ("false", Val("Bool", FALSE)), ("true", Val("Bool", TRUE)), ("int", Val("Number", mknum("pos", I(7, 7)))), ("float", Val("Number", mknum("flt", F("+fin", "f")))),
         ("negint", Val("Number", mknum("neg", I(-7, -7)))), ("nan", Val("Number", mknum("flt", F("nan", None)))),
         ("str", Val("String", X("s1"))), ("str2", Val("String", X("s2"))), ("seq", Val("Sequence", X("q1"))), ("seq2", Val("Sequence", X("q2")))]
    for t in ("!" + R0, R0, R1):
        for v in ("v1", "v2"):
            c.append((f"tagged({t},{v})", Val("Tagged", Adt("TaggedValue", None, {"tag": mktag(t), "value": X(v)}))))
    c.append(("map", Val("Mapping", X("m1"))))
    return c


XO = {("s1", "s2"): "<", ("q1", "q2"): "<", ("v1", "v2"): "<"}


def value_related():
    cl = value_classes()
    kind = lambda l: {"false": "Bool", "true": "Bool", "int": "Number", "float": "Number", "negint": "Number", "nan": "Number"}.get(l, l.rstrip("12").split("(")[0])

    def rel(la, a):
        for lb, b in cl:
            if "map" in (la, lb) and la == lb:
                continue
            if la.startswith("tagged") and lb.startswith("tagged"):
                ta, va = la[7:-1].split(",")
                tb, vb = lb[7:-1].split(",")
                ta, tb = canon(ta), canon(tb)
                yield lb, b, XO, "=" if (ta, va) == (tb, vb) else "<" if (ta, va) < (tb, vb) else ">"
            else:
                yield lb, b, XO, "=" if la == lb else "x"
    return cl, rel


def check(ck):
    A, M = run.analyse(
        dict(entries=["number|<Number as P*", "number|<Number as H*", "value|<Value as PartialEq<Value>>*", "value|<Value as Hash>*", "value|<Value as PartialOrd<Value>>*",
                      "value::tagged|<Tag as *", "value::tagged|<TaggedValue as PartialEq*", "value::tagged|<TaggedValue as Hash*", "value::tagged|<TaggedValue as PartialOrd*", "mapping|<HashLikeValue*"],
             opaque=["*iter_cmp_by*", "*partial_cmp::total_cmp*"], max_paths=3000),
        dict(entries=["mapping|<Mapping as Hash*", "mapping|<Mapping as PartialOrd*", "mapping|<Mapping as PartialEq*", "mapping*total_cmp*", "mapping*iter_cmp_by*"],
             opaque=["*<Value as Hash>*", "*<Value as PartialOrd*", "*partial_cmp::total_cmp*", "*iter_cmp_by*"], max_paths=3000))
    # numbers
    es = [ck.need(A, f"<Number as {t}") for t in ("PartialEq<Number>>::eq", "PartialOrd<Number>>::partial_cmp", "Hash>::hash")]
    if all(es):
        cl, rel = num_related(lambda n: n)
        table(ck, "Number", cl, rel, [es[0]], [es[1]], [es[2]])
    # values
    es = [ck.need(A, f"<Value as {t}") for t in ("PartialEq<Value>>::eq", "PartialOrd<Value>>::partial_cmp", "Hash>::hash")]
    if all(es):
        cl, rel = value_related()
        table(ck, "Value", cl, rel, [es[0]], [es[1]], [es[2]])
        cl, rel = num_related(lambda n: Val("Number", n))
        table(ck, "Value::Number", cl, rel, [es[0]], [es[1]], [es[2]])
    vh = es[2]
    # tags
    es = [ck.need(A, f"<Tag as {t}") for t in ("PartialEq<Tag>>::eq", "Ord>::cmp", "PartialOrd<Tag>>::partial_cmp", "Hash>::hash")]
    if all(es):
        cl, rel = tag_related(mktag, lits(es))
        table(ck, "Tag", cl, rel, [es[0]], [es[1], es[2]], [es[3]])
    es = [ck.need(A, f"<TaggedValue as {t}") for t in ("PartialEq<TaggedValue>>::eq", "PartialOrd<TaggedValue>>::partial_cmp", "Hash>::hash")]
    if all(es):
        tv = lambda s, v: Adt("TaggedValue", None, {"tag": mktag(s), "value": v})
        vals = [("null", Val("Null")), ("true", Val("Bool", TRUE)), ("str", Val("String", X("s1"))), ("seq", Val("Sequence", X("q1")))]
        cl = [(f"{t} {l}", tv(t, v)) for t in ("!" + R0, R0, R1, "!" + R1) for l, v in vals]

        def rel(la, a):
            for lb, b in cl:
                x, y = la.split(" "), lb.split(" ")
                x[0], y[0] = canon(x[0]), canon(y[0])
                yield lb, b, XO, "=" if x == y else "<" if x[0] < y[0] else ">" if x[0] > y[0] else "x"
        table(ck, "TaggedValue", cl, rel, [es[0]], [es[1]], [es[2]])
    ck.count("coherence tables", 5)
    mappings(ck, M)
    hashlike(ck, A, vh)


COMM = {"wrapping_add", "wrapping_mul", "bitxor", "bitor", "bitand", "max", "min", "saturating_add"}


def mappings(ck, M):
    e = ck.need(M, "<Mapping as PartialEq<Mapping>>::eq")
    if e:
        for p in e.paths:
            if p.end != "return":
                continue
            bad = [c for c in p.all_calls() if c.last in ("iter", "keys", "values", "as_slice", "get_index") and "IndexMap" in c.name]
            zipped = [c for c in p.all_calls() if c.last in ("zip", "cmp", "partial_cmp", "eq") and "Iterator" in c.name]
            ck.obl(not (bad and zipped), "Mapping::eq:order", "mapping equality compares entries in iteration order", f"{e.name} {p.span}")
    e = ck.need(M, "<Mapping as Hash>::hash")
    if e:
        st = e.params[1][0]
        loops = [p for p in e.paths if p.end == "back"]
        ck.count("entry loops hashing a mapping", len(loops))
        for p in e.paths:
            for c in p.all_calls():
                if c.is_("RandomState::new", "RandomState::build_hasher", "BuildHasher::build_hasher") or "RandomState" in c.name and c.last in ("new", "default", "hash_one", "build_hasher"):
                    ck.violation("Mapping::hash:random", "the hash of a mapping depends on a randomly seeded hasher", f"{e.name} {c.span}")
                if c.last == "hash" and any(x in c.selfty for x in ("IndexMap", "Iter<", "Vec<(")):
                    ck.violation("Mapping::hash:order", "entries are hashed in iteration order", f"{e.name} {c.span}")
        for p in loops:
            # the outer hasher must not change inside the loop over entries
            direct = any(c.last in ("iter", "keys", "values", "into_iter", "as_slice") and "IndexMap" in c.name for c in p.all_calls()) and not any(c.last.startswith("sort") for c in p.all_calls())
            if not direct:
                ck.undecided("Mapping::hash:loop", "entries are not iterated directly")
                continue
            i = next(i for i, it in enumerate(p.items) if it[0] == "loop")
            wrote = [c for c in p.all_calls() if c.pos > i and (c.last == "hash" or c.last.startswith("write")) and c.args and derives(e, c.args[-1] if c.last == "hash" else c.args[0], st)]
            ck.obl(not wrote, "Mapping::hash:order", "entries are written to the outer hasher in iteration order", f"{e.name} {p.span}")
            for s, n in p.val[1]:
                init = e.terms[s][3]
                k0 = e.terms.get(init)
                if not k0 or k0[0] != "i":
                    continue
                if n == s:
                    ck.undecided("Mapping::hash:accumulator", "unchanged in the loop")
                    continue
                k = e.terms[n]
                if k[0] == "b" and k[1] in ("BitXor", "Add", "BitOr", "BitAnd", "Mul"):
                    ops = (k[2], k[3])
                elif k[0] == "a" and base(k[1])[1] in COMM:
                    ops = tuple(k[2])
                else:
                    bad = k[0] == "a" and base(k[1])[1] in ("rotate_left", "rotate_right") or k[0] == "b" and k[1] in ("Sub", "Shl", "Shr", "Rem", "Div")
                    if bad or nonassoc(e, n, s):
                        ck.violation("Mapping::hash:accumulator", f"the accumulator is updated by {e.show(n)[:120]}, which depends on the order of entries", f"{e.name} {p.span}")
                    else:
                        ck.undecided("Mapping::hash:accumulator", e.show(n)[:100])
                    continue
                other = [o for o in ops if o != s]
                if len(other) == 1:
                    dep = derives(e, other[0], s) or dep_calls(e, p, other[0], s)
                    ck.obl(not dep, "Mapping::hash:accumulator", "the value folded in for an entry depends on the accumulator", f"{e.name} {p.span}")
                elif nonassoc(e, n, s):
                    ck.violation("Mapping::hash:accumulator", f"the accumulator is updated by {e.show(n)[:120]}, which depends on the order of entries", f"{e.name} {p.span}")
                else:
                    ck.undecided("Mapping::hash:accumulator", e.show(n)[:100])
            # equality takes keys and values into account; the hash of an entry must not depend on more than them
            roots = [c for c in p.all_calls() if c.pos > i and c.last == "hash"]
            ck.count("hash events per entry", len(roots))
    e = ck.need(M, "<Mapping as PartialOrd<Mapping>>::partial_cmp")
    if e:
        for p in e.paths:
            if p.end != "return" or p.val is None:
                continue
            sorted_ = [c for c in p.all_calls() if c.last.startswith("sort") or c.is_("IndexMap::sorted_by", "IndexMap::sort_keys")]
            seqs = [c for c in p.all_calls() if c.last in ("partial_cmp", "cmp", "lt", "eq", "iter_cmp_by", "cmp_by", "partial_cmp_by") and len(c.args) >= 2 and (any(("Vec<" in x or "Iter" in x or "&[" in x or "Box<[" in x) for x in c.targs[:2]) or c.last in ("iter_cmp_by",) or "Iterator" in c.name)]
            k = e.terms[p.val]
            cmp_terms = []
            if k[0] == "a" and base(k[1])[1] in ("partial_cmp", "cmp") and len(k[2]) == 2 and ("Vec<" in k[1] or "[" in k[1]):
                cmp_terms.append((k[2][0], k[2][1], p.span))
            for c in seqs:
                cmp_terms.append((c.args[0], c.args[1], c.span))
            if not cmp_terms:
                ck.undecided("Mapping::partial_cmp", "no comparison of entry lists found")
                continue
            for a, b, sp in cmp_terms:
                for which, t in (("self", a), ("other", b)):
                    hs = [c for c in sorted_ if c.args and related_state(e, t, c.args[0])]
                    ck.obl(bool(hs), f"Mapping::partial_cmp:{which}", f"the entries of {which} are compared in insertion order: they never pass through a sort", f"{e.name} {sp}")
    # the comparator used to sort: coherent on every pair of classes
    for e in M.find(lambda n: n.split("::")[-1] == "total_cmp", module="mapping*"):
        if e.cut or e.error or len(e.params) != 2:
            continue
        ck.use(e)
        cl, rel = value_related()
        table(ck, "total_cmp", cl, rel, [], [e], [])
        for p in e.paths:
            if p.end == "return":
                unsorted(ck, e, p, "total_cmp")
    for e in M.find(lambda n: n.split("::")[-1] == "iter_cmp_by", module="mapping*"):
        if e.cut or e.error:
            continue
        ck.use(e)
        for p in e.paths:
            if p.end != "return":
                continue
            nx = [c for c in p.all_calls() if c.last == "next"]
            if len(nx) != 2:
                ck.undecided("iter_cmp_by", "unexpected shape")
                continue
            order = [root(e, c.args[0]) for c in nx]
            vs = {}
            for c, o in zip(nx, order):
                v = p.variants(c.ret)
                vs[o] = next(iter(v)) if v and len(v) == 1 else None
            r = e.terms[p.val]
            got = r[2] if r[0] == "A" else None
            a, b = vs.get(e.params[0][0]), vs.get(e.params[1][0])
            if a is None or b is None:
                ck.undecided("iter_cmp_by", "operands not identified")
            elif (a, b) == ("Some", "Some"):
                pass
            elif got:
                ck.obl(got == {("None", "None"): "Equal", ("None", "Some"): "Less", ("Some", "None"): "Greater"}[(a, b)], f"iter_cmp_by:{a}:{b}", f"first list {a}, second {b} gives {got}", f"{e.name} {p.span}")


def unsorted(ck, e, p, label):
    """an entry list collected from a mapping is compared without having been sorted"""
    sorts = [c for c in p.all_calls() if c.last.startswith("sort")]
    for c in p.all_calls():
        if c.last not in ("iter_cmp_by", "cmp_by", "cmp", "partial_cmp", "partial_cmp_by", "eq", "lt") or len(c.args) < 2:
            continue
        for a in c.args[:2]:
            r = root_call(e, a)
            if r is None or r.last not in ("from_iter", "collect", "iter", "into_iter", "keys", "values"):
                continue
            if "Mapping" in " ".join(r.targs) + r.selfty or "IndexMap" in r.name:
                ck.obl(any(s.args and root_call(e, s.args[0]) is r for s in sorts), f"{label}:unsorted", "the entries of a mapping are compared in insertion order: they never pass through a sort", f"{e.name} {c.span}")


def root_call(e, t):
    """the opaque call whose (mutated, viewed) result t is"""
    while True:
        k = e.terms.get(t)
        if k is None:
            return None
        if k[0] == "S":
            t = k[2]
        elif k[0] in ("v", "d"):
            t = k[1]
        elif k[0] == "y" and k[1] in ("havoc", "loop"):
            t = k[3]
        elif k[0] == "y" and k[1] == "ret":
            return e.call_of(t)
        else:
            return None


def root(e, t):
    """the parameter a (havocked, looped, converted) term stems from"""
    while True:
        k = e.terms.get(t)
        if k is None:
            return None
        if k[0] == "S":
            t = k[2]
        elif k[0] in ("v", "d"):
            t = k[1]
        elif k[0] == "y" and k[1] == "havoc" or k[0] == "y" and k[1] == "loop":
            t = k[3]
        elif k[0] == "y" and k[1] == "ret":
            c = e.call_of(t)
            if c is None or not c.args:
                return t
            t = c.args[0]
        elif k[0] == "a" and k[2]:
            t = k[2][0]
        elif k[0] == "f":
            t = k[1]
        else:
            return t


def nonassoc(e, n, s):
    """n mixes the accumulator s non-commutatively: a product/rotation/shift of s combined with something else"""
    for t in e.subterms(n):
        k = e.terms[t]
        if k[0] == "b" and k[1] in ("Mul", "Shl", "Shr", "Sub") and s in (k[2], k[3]):
            return True
        if k[0] == "a" and base(k[1])[1] in ("wrapping_mul", "rotate_left", "rotate_right", "wrapping_shl", "wrapping_sub") and s in k[2]:
            return True
    return False


def dep_calls(e, p, t, s):
    """the folded-in value comes out of a hasher that was fed the accumulator"""
    k = e.terms.get(t)
    if not k or k[0] != "y" or k[1] != "ret":
        return False
    c = e.call_of(t)
    if c is None:
        return False
    for d in p.all_calls():
        if d.pos < 10 ** 9 and (d.last == "hash" or d.last.startswith("write")):
            if any(derives(e, a, s) for a in d.args[:1]):
                return True
    return False


def related_state(e, t, arg):
    """the value t is a later state of the object arg pointed to (or a view of it)"""
    def chain(x):
        out = set()
        work = [x]
        while work:
            y = work.pop()
            if y in out or y not in e.terms:
                continue
            out.add(y)
            k = e.terms[y]
            if k[0] == "S":
                work.append(k[2])
            elif k[0] in ("v", "d", "f"):
                work.append(k[1])
            elif k[0] == "y" and k[1] in ("havoc", "loop"):
                work.append(k[3])
            elif k[0] == "a":
                work.extend(k[2][:1])
            elif k[0] == "y" and k[1] == "ret":
                c = e.call_of(y)
                if c is not None and c.args and c.last in ("iter", "into_iter", "as_slice", "deref", "map", "copied", "cloned", "into_boxed_slice", "deref_mut", "as_mut_slice", "by_ref"):
                    work.append(c.args[0])
        return out
    a, b = chain(t), chain(arg)
    rets = lambda s: {x for x in s if e.terms[x][0] == "y" and e.terms[x][1] in ("ret",)}
    return bool(rets(a) & rets(b)) or arg in a


def hashlike(ck, A, vh):
    """looking a string up in a mapping hashes and compares like the string value it denotes"""
    eq = A.find("<HashLikeValue as Equivalent<Value>>::equivalent")
    h = A.find("<HashLikeValue as Hash>::hash")
    if len(eq) != 1 or len(h) != 1:
        ck.undecided("HashLikeValue", "no such type")
        return
    eq, h = ck.use(eq[0]), ck.use(h[0])
    me = Adt("HashLikeValue", None, {"0": X("s1")})
    for l, v in value_classes() + [("tagged str", Val("Tagged", Adt("TaggedValue", None, {"tag": mktag(R0), "value": Val("String", X("s1"))})))]:
        r = outcome(eq, me, v, XO)
        if isinstance(r, I) and r.const is not None:
            ck.obl(bool(r.const) == (l == "str"), f"HashLikeValue:{l}", f"a lookup by string must {'match' if l == 'str' else 'not match'} the key {l}", eq.span)
        else:
            ck.undecided(f"HashLikeValue:{l}")
    if vh:
        want = hash_events(vh, Val("String", X("s1")))
        ev = Ev(h, {h.params[0][0]: me})
        got = []
        for p in h.paths:
            if p.end != "return":
                continue
            for c in p.all_calls():
                if c.last == "hash":
                    ty = (c.selfty or '?').replace("&", "").replace("String", "str")
                    got.append((ty, ev.ev(c.args[0])))
        if want is None or len(h.paths) != 1:
            ck.undecided("HashLikeValue::hash")
        else:
            # a discriminant given by its number is that of the variant at that place
            got = [(t, type(w[1])(VALUE_VARIANTS[v.const]) if isinstance(v, I) and not isinstance(w[1], I) and v.const is not None and 0 <= v.const < len(VALUE_VARIANTS) else v) for (t, v), w in zip(got, want)] if len(got) == len(want) else got
            # the discriminant of a constant is not evaluated; its presence, type and position are compared
            ok = len(got) == len(want) and all(g[0] == w[0] and (g[1] is None or g[1] == w[1]) for g, w in zip(got, want))
            ck.obl(ok, "HashLikeValue::hash", f"a string lookup hashes {got} but the string key hashes {want}", h.span)
