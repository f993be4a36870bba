from absval import *
from model import *
import run

WHAT = ("Every is_*/as_* accessor and every indexing method is evaluated on each kind of value beneath zero, one and two tags: is_x and as_x must answer by the untagged kind alone and agree, and get, get_mut "
        "and indexing must resolve to the lookup of the same key in the same container, inserting only on mutable indexing.")
ASSUMES = ["slice::get/get_mut and indexmap lookups have their documented meaning"]

PAY = {"Null": None, "Bool": None, "Number": None, "String": X("str"), "Sequence": X("vec"), "Mapping": Adt("Mapping", None, {"map": X("map")})}
KIND = {"null": "Null", "bool": "Bool", "number": "Number", "string": "String", "str": "String", "sequence": "Sequence", "mapping": "Mapping"}


def kinds():
    """(label, variant, abstract untagged value)"""
    out = [("null", "Null", Val("Null")), ("true", "Bool", Val("Bool", TRUE)), ("false", "Bool", Val("Bool", FALSE)), ("string", "String", Val("String", PAY["String"])),
           ("sequence", "Sequence", Val("Sequence", PAY["Sequence"])), ("mapping", "Mapping", Val("Mapping", PAY["Mapping"]))]
    for l, k, v in (("posint", "pos", I(5, 5, "n")), ("bigint", "pos", I(2 ** 63, 2 ** 64 - 1, "n")), ("negint", "neg", I(-9, -2, "n")), ("float", "flt", F("+fin", "n")), ("nan", "flt", F("nan", "n"))):
        out.append((l, "Number", Val("Number", mknum(k, v))))
    return out


def depths(v):
    return [("", v), ("tagged ", tagged(v)), ("doubly tagged ", tagged(tagged(v)))]


def tf(v, want):
    if isinstance(v, I) and v.const is not None:
        return bool(v.const) == want
    return None


def payload_of(variant, v):
    p = v.fields.get("0")
    return p


def accessors(ck, R):
    n = 0
    for name, kind in KIND.items():
        for pre in ("is_", "as_"):
            for suf in ("", "_mut"):
                m = pre + name + suf
                if (pre == "is_" and (name == "str" or suf)) or (pre == "as_" and (name in ("string", "number") or (suf and name not in ("sequence", "mapping")))):
                    continue
                e = ck.need(R, f"Value::{m}")
                if not e:
                    continue
                n += 1
                for l, k, v in kinds():
                    for d, w in depths(v):
                        ev, rs = results(e, {e.params[0][0]: w})
                        want = k == kind
                        if pre == "is_":
                            judge(ck, f"{m}:{d}{l}", e, rs, lambda r, p: tf(r, want), f"{m} of a {d}{l} must be {want}")
                        else:
                            def pred(r, p):
                                o = opt(r)
                                if o is None:
                                    return None
                                if (o[0] == "Some") != want:
                                    return False
                                if want and name != "null":
                                    exp = v.fields["0"]
                                    got = o[1]
                                    if got is None:
                                        return None
                                    return got == exp if type(got) == type(exp) else None
                                return True
                            judge(ck, f"{m}:{d}{l}", e, rs, pred, f"{m} of a {d}{l} must be {'its content' if want else 'None'}")
    # numeric accessors only concern numbers, beneath tags
    for t in ("i64", "u64", "f64"):
        for pre in ("is_", "as_"):
            e = ck.need(R, f"Value::{pre}{t}")
            if not e:
                continue
            n += 1
            for l, k, v in kinds():
                for d, w in depths(v):
                    num = v.fields["0"].fields["n"] if k == "Number" else None
                    want = num is not None and {"i64": l in ("posint", "negint"), "u64": l in ("posint", "bigint"), "f64": num.variant == "Float" or pre == "as_"}[t]
                    ev, rs = results(e, {e.params[0][0]: w})
                    judge(ck, f"{pre}{t}:{d}{l}", e, rs, (lambda r, p: tf(r, want)) if pre == "is_" else (lambda r, p: None if opt(r) is None else (opt(r)[0] == "Some") == want), f"{pre}{t} of a {d}{l} must be {'a value' if want else 'None/false'}")
    ck.floor("accessors of Value", n, 19)
    # comparison with str and bool
    for ty in ("str", "&str", "String"):
        e = ck.need(R, f"<Value as PartialEq<{ty}>>::eq")
        if e:
            for l, k, v in kinds():
                for d, w in depths(v):
                    for other, same in ((X("str"), True), (X("other"), False)):
                        ev, rs = results(e, {e.params[0][0]: w, e.params[1][0]: other}, {("str", "other"): "<"})
                        judge(ck, f"eq<{ty}>:{d}{l}:{same}", e, rs, lambda r, p: tf(r, k == "String" and same), f"comparing a {d}{l} with {'the same' if same else 'another'} text")
    e = ck.need(R, "<Value as PartialEq<bool>>::eq")
    if e:
        for l, k, v in kinds():
            for d, w in depths(v):
                for b in (TRUE, FALSE):
                    ev, rs = results(e, {e.params[0][0]: w, e.params[1][0]: b})
                    judge(ck, f"eq<bool>:{d}{l}:{b.lo}", e, rs, lambda r, p: tf(r, k == "Bool" and v.fields["0"] == b), f"comparing a {d}{l} with {bool(b.lo)}")
    numbers(ck, R)


INTS = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1),
        "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1)}


def numbers(ck, R):
    """comparison with each numeric primitive: equal exactly when the number beneath the tags is that number"""
    vals = [5, 6, 127, 128, 255, 256, 2**31, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1, -1, -5, -128, -2**63]
    nodes = [(str(v), Val("Number", mknum("pos" if v >= 0 else "neg", I(v, v))), v) for v in vals]
    nodes += [(repr(x), Val("Number", mknum("flt", fconst(x))), x) for x in (5.0, 1.5, -1.0, float("inf"), float("nan"))]
    nodes += [(l, v, None) for l, k, v in kinds() if k != "Number"]
    n = 0
    for ty in list(INTS) + ["f32", "f64"]:
        for own in ("Value", "&Value", "&mut Value"):
            e = ck.need(R, f"<{own} as PartialEq<{ty}>>::eq")
            if not e or len(e.params) < 2:
                continue
            n += 1
            flt = ty[0] == "f"
            others = [float(x) for x in (5, 6, -1, 1.5, 2**53)] + [float("inf"), float("nan")] if flt else [x for x in vals if INTS[ty][0] <= x <= INTS[ty][1]]
            for l, v, x in nodes:
                for d, w in depths(v)[:2]:
                    for o in others:
                        if flt:
                            same = x is not None and float(x) == o
                        else:
                            same = isinstance(x, int) and x == o
                        ev, rs = results(e, {e.params[0][0]: w, e.params[1][0]: fconst(o) if flt else I(o, o)})
                        judge(ck, f"eq<{own},{ty}>:{l}", e, rs, lambda r, p: tf(r, same), f"comparing a {d}{l} with the {ty} {o} must be {same}")
    ck.floor("comparisons with numbers", n, 36)


LOSSY = ("rev", "skip", "take", "filter", "filter_map", "step_by", "skip_while", "take_while", "dedup", "truncate", "reverse", "sort", "pop", "remove", "swap_remove", "retain", "chain", "last", "first", "split_first", "split_last")


def conversions(ck, R):
    """From and FromIterator give the value of the source's own kind, with the same content"""
    n = 0
    for ty, kind, arg in (("bool", "Bool", (TRUE, FALSE)), ("&str", "String", (X("str"),)), ("String", "String", (X("str"),)), ("Cow<str>", "String", (X("str"),)), ("Mapping", "Mapping", (X("map"),)),
                          ("Vec<T>", "Sequence", (X("list"),)), ("&[T]", "Sequence", (X("list"),)), (None, "Sequence", (X("list"),))):
        e = ck.need(R, f"<Value as From<{ty}>>::from" if ty else "<Value as FromIterator<T>>::from_iter")
        if not e or not e.params:
            continue
        n += 1
        for a in arg:
            ev, rs = results(e, {e.params[0][0]: a}, fns={"to_string": lambda ev, av, a, t: av[0], "to_owned": lambda ev, av, a, t: av[0], "into_owned": lambda ev, av, a, t: av[0]})

            def pred(v, p):
                if not isinstance(v, Adt) or v.variant is None:
                    return None
                if v.variant != kind:
                    return False
                c = v.fields.get("0")
                if kind == "Sequence":
                    return True
                return None if c is None else c == a
            judge(ck, f"from:{ty}", e, rs, pred, f"a value made from {ty or 'an iterator'} must be that {kind}")
            if kind == "Sequence":
                for p in e.paths:
                    bad = [x for it in p.items if it[0] == "call" for x in [it[2].rsplit("::", 1)[-1]] if x in LOSSY]
                    if bad and p.end == "return":
                        ck.obl(False if bad[0] in ("rev", "reverse", "skip", "step_by", "filter", "sort", "take_while", "skip_while") and len(bad) == 1 else None, f"from:{ty}:order", f"a value made from {ty or 'an iterator'} goes through {bad[0]}", f"{e.name} {p.span}")
    ck.floor("conversions", n, 8)


def Lookup(c, k):
    return Adt("Lookup", None, {"in": c, "key": k})


def getter(name):
    def f(ev, av, at, t):
        if len(av) < 2 or av[0] is None or av[1] is None:
            return None
        return Lookup(av[0], av[1])
    return f


def key_ok(got, kind, container):
    """does the key of a lookup denote the index `i` (position, or number key) / string `k` / value `kv`?"""
    if got is None:
        return None
    if kind == "usize":
        if container == PAY["Sequence"]:
            return got.src == "i" if isinstance(got, I) else None
        n = got
        if isinstance(n, Adt) and n.name == "Value":
            if n.variant != "Number":
                return False
            n = n.fields.get("0")
        if isinstance(n, Adt) and n.name == "Number":
            n = next(iter(n.fields.values()))
        if isinstance(n, Adt) and n.name == "N":
            p = n.fields.get("0")
            return n.variant == "PosInt" and p.src == "i" if isinstance(p, I) else (False if n.variant == "Float" else None)
        return None
    want = X("k") if kind in ("str", "String") else X("kv")
    if kind == "Value":
        return got == Val("String", X("kv")) if isinstance(got, Adt) and got.name == "Value" and (got.variant != "String" or got.fields.get("0") is not None) else None
    if isinstance(got, Adt) and got.name == "Value" and kind != "Value":
        return got.variant == "String" and got.fields.get("0") == want if got.variant != "String" or isinstance(got.fields.get("0"), X) else None
    if isinstance(got, Adt) and got.name == "HashLikeValue":
        return got.fields.get("0") == want if isinstance(got.fields.get("0"), X) else None
    return got == want if isinstance(got, X) else None


def container_ok(got, variant):
    if got is None:
        return None
    if variant == "Mapping" and isinstance(got, Adt) and got.name == "Mapping":
        got = got.fields.get("map")
    want = X("map") if variant == "Mapping" else PAY["Sequence"]
    return got == want if isinstance(got, X) else None


def all3(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def lookup_ok(v, kind, variant):
    if isinstance(v, Adt) and v.name == "Lookup":
        c, k = v.fields["in"], v.fields["key"]
        return all3(container_ok(c, variant), key_ok(k, kind, PAY["Sequence"] if variant == "Sequence" else X("map")))
    if isinstance(v, Adt) and v.name == "Option":
        if v.variant == "None":
            return False
        return lookup_ok(v.fields.get("0"), kind, variant) if isinstance(v.fields.get("0"), Adt) else None
    return None


ARG = {"usize": I(0, 2 ** 64 - 1, "i"), "str": X("k"), "String": X("k"), "Value": Val("String", X("kv"))}


def indexing(ck, R):
    n = 0
    for kind in ("usize", "str", "String", "Value"):
        fns = {}
        for g in ("get", "get_mut", "get_key_value", "swap_remove", "shift_remove", "insert", "remove"):
            fns[g] = fns["call:" + g] = getter(g)
        for m in ("index_into", "index_into_mut"):
            e = ck.need(R, f"<{kind} as Index>::{m}", "value::index")
            if not e:
                continue
            n += 1
            for l, k, v in kinds():
                for d, w in depths(v):
                    ev, rs = results(e, {e.params[0][0]: ARG[kind], e.params[1][0]: w}, None, fns)
                    hit = k == "Mapping" or k == "Sequence" and kind == "usize"
                    if hit:
                        judge(ck, f"{kind}:{m}:{d}{l}", e, rs, lambda r, p: lookup_ok(r, kind, k), f"{m} of a {d}{l} by {kind} must look the key up in it")
                        for f, p, r, ch in rs:
                            for c in p.all_calls():
                                if "IndexMap" in c.name and c.last in ("insert", "entry", "swap_remove", "shift_remove", "insert_full"):
                                    ck.violation(f"{kind}:{m}:mutates", f"{m} must not change the mapping", f"{e.name} {c.span}")
                    else:
                        judge(ck, f"{kind}:{m}:{d}{l}", e, rs, lambda r, p: None if not isinstance(r, Adt) else opt(r) is not None and opt(r)[0] == "None", f"{m} of a {d}{l} by {kind} must be None")
        e = ck.need(R, f"<{kind} as Index>::index_or_insert", "value::index")
        if not e:
            continue
        n += 1
        for l, k, v in kinds():
            for d, w in depths(v):
                if k == "Null" and (d or kind == "usize"):
                    continue    # a tagged null, or a null indexed by position: may panic or insert
                for present in (True, False):
                    if k not in ("Mapping", "Sequence") and present:
                        continue
                    def entry(ev, av, at, t):
                        if av[1] is None:
                            return None
                        return Adt("Entry", "Occupied" if present else "Vacant", {"0": Lookup(av[0] or X("fresh"), av[1])})

                    def insert(ev, av, at, t):
                        return Adt("Inserted", None, {"e": av[0], "v": av[1]}) if len(av) > 1 and av[0] is not None else None

                    def or_insert(ev, av, at, t):
                        a = av[0]
                        if not isinstance(a, Adt) or a.name != "Entry":
                            return None
                        return a.fields["0"] if a.variant == "Occupied" else Adt("Inserted", None, {"e": a.fields["0"], "v": av[1] if len(av) > 1 else None})

                    def get(ev, av, at, t):
                        if av[0] is None or av[1] is None:
                            return None
                        return Some(Lookup(av[0], av[1])) if present else NONE
                    ident = lambda ev, av, at, t: av[0]
                    fns = {"call:entry": entry, "call:insert": insert, "call:or_insert": or_insert, "call:into_mut": ident, "call:get_mut": get, "get_mut": get, "call:get": get, "get": get, "call:index_mut": ident}
                    ev, rs = results(e, {e.params[0][0]: ARG[kind], e.params[1][0]: w}, None, fns, ("return", "panic"))
                    key = f"{kind}:index_or_insert:{d}{l}:{'present' if present else 'absent'}"

                    def pred(r, p):
                        if k == "Sequence" and kind == "usize":
                            if not present:
                                return p.end == "panic"
                            return False if p.end == "panic" else lookup_ok(r, kind, k)
                        if k == "Mapping" or k == "Null" and d == "" and kind != "usize":
                            if k == "Null" and present:
                                return True
                            if p.end == "panic":
                                return None if "alloc" in str(p.val) else False
                            if k == "Null":
                                o = p.out.get(1)
                                o = ev.ev(o) if o is not None else None
                                if isinstance(o, Adt) and o.variant != "Mapping":
                                    return False
                                return inserted(r, kind, None)
                            return lookup_ok(r, kind, k) if present else inserted(r, kind, k)
                        return p.end == "panic"
                    judge(ck, key, e, [x for x in rs if not (x[1].end == "panic" and "alloc" in str(x[1].val))], pred, f"mutable indexing of a {d}{l} by {kind} ({'key present' if present else 'key absent'})")
    ck.floor("Index implementations", n, 12)


def inserted(r, kind, variant):
    if isinstance(r, Adt) and r.name == "Inserted":
        v = r.fields["v"]
        null = None if v is None else isinstance(v, Adt) and v.variant == "Null"
        lk = r.fields["e"]
        if variant is None:
            return all3(null, key_ok(lk.fields["key"], kind, X("map")) if isinstance(lk, Adt) and lk.name == "Lookup" else None)
        return all3(null, lookup_ok(lk, kind, variant))
    if isinstance(r, Adt) and r.name == "Lookup":
        return False
    return None


def delegation(ck, R):
    """get/get_mut/index/index_mut and &T forward to the same Index method with the same operands"""
    for name, mod, target, i, v in (("Value::get", None, "index_into", 1, 0), ("Value::get_mut", None, "index_into_mut", 1, 0), ("<Value as Index<I>>::index", None, "index_into", 1, 0),
                                    ("<Value as IndexMut<I>>::index_mut", None, "index_or_insert", 1, 0), ("<&T as Index>::index_into", "value::index", "index_into", 0, 1),
                                    ("<&T as Index>::index_into_mut", "value::index", "index_into_mut", 0, 1), ("<&T as Index>::index_or_insert", "value::index", "index_or_insert", 0, 1)):
        e = ck.need(R, name, mod)
        if not e:
            continue
        for found in (True, False):
            def h(ev, av, at, t):
                if av[0] != X("ix") or av[1] != X("val"):
                    return X("other-lookup") if av[0] is not None and av[1] is not None else None
                if target == "index_or_insert":
                    return X("child")
                return Some(X("child")) if found else NONE
            fns = {"call:" + m: (h if m == target else (lambda ev, av, at, t: X("wrong-method"))) for m in ("index_into", "index_into_mut", "index_or_insert")}
            ev, rs = results(e, {e.params[i][0]: X("ix"), e.params[v][0]: X("val")}, None, fns)

            def pred(r, p):
                if name.endswith("::index"):
                    if found:
                        return r == X("child") if r is not None else None
                    if r is None:
                        return True if e.terms[p.val][0] == "k" and "NULL" in str(e.terms[p.val][1]) else None
                    return isinstance(r, Adt) and r.variant == "Null"
                if r is None:
                    return None
                return r == (X("child") if target == "index_or_insert" else Some(X("child")) if found else NONE)
            judge(ck, f"{name}:{'found' if found else 'missing'}", e, rs, pred, f"{name} must answer with {target}")
    ck.count("forwarding methods", 7)


def check(ck):
    R = run.analyse(dict(entries=["value::index|*", "value|Value::get*", "value|Value::is_*", "value|Value::as_*", "value*|<*Value as PartialEq<*", "value*|<Value as From*"], max_paths=3000))
    accessors(ck, R)
    conversions(ck, R)
    indexing(ck, R)
    delegation(ck, R)
