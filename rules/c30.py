from scalar import *
from model import Val, Num, N
import run
import valde
from rules import c01

WHAT = ("The typed and untyped reads from text are evaluated on every kind of node (scalars of each style and tag, aliases, sequences, mappings, nothing), and those of a Value on every kind of Value: each must make exactly the callback of its own kind with that node's payload, or fail, and take exactly one node; "
        "a read through an alias asks for the same kind at the alias's target; the top-level deserializer passes the request on unchanged; the visitor that builds a Value records what it was given.")
ASSUMES = ["nodes of one kind are treated alike beyond the distinctions the code itself makes", "containers are followed to two levels of nesting"]
GROUPS = [("i8", "i16", "i32", "i64"), ("u8", "u16", "u32", "u64"), ("f32", "f64"), ("str", "string", "char", "identifier"), ("bytes", "byte_buf"), ("unit", "unit_struct"), ("seq", "tuple", "tuple_struct"), ("map", "struct")]
KIND = {m: g[0] for g in GROUPS for m in g}
NUMS = ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64")
SEQ = {"visit_sequence": "visit_seq", "visit_mapping": "visit_map"}


def kind(m):
    return KIND.get(m, m)


def out(r):
    o = got(r)
    if isinstance(o, tuple):
        return (SEQ.get(o[0], o[0]), o[1])
    if o is None:       # payloads that are not plain data do not matter here
        vs = [c for c in r[1] if c[0].startswith(("visit_", "deserialize_"))]
        if len(vs) == 1:
            n = "visit_str" if vs[0][0] in ("visit_borrowed_str", "visit_string") else vs[0][0]
            return (SEQ.get(n, n), None)
    return o


def nodes():
    for w in ("5", "-5", "true", "1.5", "~", "", "text", " a\n"):
        for style in ("Plain", "SingleQuoted", "DoubleQuoted", "Literal", "Folded"):
            for tag in (None, "!t", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int"):
                yield f"{'a plain' if style == 'Plain' else style} scalar {w!r}" + (f" tagged {tag}" if tag else ""), "scalar", w, style, tag, [scalar(w, style, tag)]
    for c, n in (("[", "sequence"), ("{", "mapping")):
        for tag in (None, "!t", "tag:yaml.org,2002:seq"):
            yield f"a {n}" + (f" tagged {tag}" if tag else ""), n, None, None, tag, [start(c, tag), END["]" if c == "[" else "}"]]
    yield "an absent value", "void", None, None, None, [VOID]
    yield "an alias", "alias", None, None, None, [alias(3), scalar("a"), scalar("b"), scalar("c")]


def wants(m, nk, w, style, tag):
    """(description, predicate on the outcome, position where it leaves the reader) or None when another property settles it"""
    cb = lambda n, *a: lambda o: isinstance(o, tuple) and o[0] == n and (not a or o[1] is None or o[1] == a)
    err = lambda o: o == "error"
    k = kind(m)
    if k == "bytes":
        return "fail", err, None
    if nk == "alias":
        if m == "newtype_struct":
            return "hand the node over", cb("visit_newtype_struct"), 0
        if m == "ignored_any":
            return "skip it", cb("visit_unit"), 1
        return "ask for the same kind at the alias's target", lambda o: isinstance(o, tuple) and (o[0].startswith("deserialize_") and kind(o[0][12:]) == k), 1
    if m == "newtype_struct":
        return "hand the node over", cb("visit_newtype_struct"), 0
    if m == "ignored_any" and nk in ("scalar", "void"):
        return "skip it", cb("visit_unit"), 1
    if m == "ignored_any":
        return "skip it", cb("visit_unit"), 2
    if nk == "void":
        r = {"any": cb("visit_none"), "unit": cb("visit_unit"), "option": cb("visit_none"), "seq": cb("visit_seq"), "map": cb("visit_map")}.get(k)
        return ("give nothing", r, 1) if r else ("fail", err, None)
    local = tag and tag.startswith("!")
    if k == "enum":
        if nk == "scalar":
            return "give an enum", cb("visit_enum"), 0
        return ("give an enum", cb("visit_enum"), 0) if local else ("fail", err, None)
    if nk == "scalar":
        if k == "str":
            return "give its text", cb("visit_str", w), 1
        if k in ("seq", "map"):
            if k == "map" or k == "seq":
                # an empty plain scalar may stand for an empty container
                empty = style == "Plain" and w == ""
                return ("give nothing or fail", lambda o: o == "error" or cb("visit_" + k)(o), None) if empty else ("fail", err, None)
        if m == "any" and local:
            return "give an enum", cb("visit_enum"), 0
        if k in ("any", "bool", "unit", "option") or m in NUMS:
            return "take exactly the node", lambda o: True, lambda o: 0 if o[0] == "visit_some" else 1
        return None
    if m == "any" and local:
        return "give an enum", cb("visit_enum"), 0
    if m == "option":
        return "hand the node over", cb("visit_some"), 0
    own = {"sequence": "seq", "mapping": "map"}[nk]
    if k == own or m == "any":
        return f"give a {nk}", cb("visit_" + own), 1
    return "fail", err, None


def check(ck):
    top(ck)
    text(ck)
    values(ck)
    record(ck)


# ---- the reader over loaded events
def text(ck):
    R = run.analyse(dict(SCALAR_GROUP))
    D = DE(ck, R)
    if D.name is None:
        return
    n = 0
    for e in D.entries("Deserializer"):
        if not e.name.startswith("<&mut ") or "::deserialize_" not in e.name:
            continue
        m = e.name.rsplit("::deserialize_", 1)[-1]
        if e.error or e.cut:
            ck.undecided(m, "not analysed")
            continue
        ck.use(e)
        b = run.Budget(20)
        for what, nk, w, style, tag, evs in nodes():
            want = wants(m, nk, w, style, tag)
            if want is None:
                continue
            if b.over():
                ck.undecided(m, "time")
                break
            desc, ok, at = want
            key = f"text:{m}:{nk}"
            kw = dict(aliases={3: 2}) if nk == "alias" else {}
            rs = reads(e, D, events(*evs), paths=Paths(e, e.paths) if m == "ignored_any" or nk == "alias" else None, **kw)
            n += 1
            judge(ck, key, e, D, rs, ok, at, f"a read of {m} from {what} should {desc}")
        if m == "ignored_any":
            skipping(ck, e, D)
        if m in c01.INT_T:
            # the exact integer, at the boundaries of every width
            for w in edges():
                for tag in (None, "tag:yaml.org,2002:int"):
                    ok = c01.typed_ok(m, w)
                    rs = reads(e, D, events(scalar(w, "Plain", tag)))
                    n += 1
                    judge(ck, f"text:{m}:edge", e, D, rs, ok, None, f"a read of {m} from the plain scalar {w!r}" + (f" tagged {tag}" if tag else "") + " should " + ("fail" if ok("error") else "give that integer"))
    ck.floor("text reads", n, 2500)


def edges():
    vs = {0, 1, -1}
    for t in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"):
        lo, hi = RANGES[t]
        vs |= {lo, lo - 1, hi, hi + 1}
    return [str(v) for v in sorted(vs)] + [f"0x{v:x}" for v in sorted(vs) if v > 0]


def judge(ck, key, e, D, rs, ok, at, msg):
    if not rs:
        return ck.undecided(key, "no path")
    bad, unknown = [], False
    for r in rs:
        o, fz = out(r), r[0]
        good = None if o is None else o != "forever" and bool(ok(o))
        why = None
        if good is False and desc_alias(msg) and reads_target(e, r):
            # the target's own reading is part of the path: what it gives depends on the target
            unknown = True
        elif good is False:
            why = "it never finishes: a round of its loop ends as it began" if o == "forever" else f"it gives {show(o)}" if not isinstance(o, tuple) or o[1] is not None else f"it makes the callback {o[0]}"
        elif good and at is not None and isinstance(o, tuple):
            r[4].at(r[5])
            pos = final_pos(e, D, r[3], r[4])
            to = at(o) if callable(at) else at
            if pos is None:
                unknown = True
            elif pos != to:
                why = f"it leaves the reader {pos} event(s) on instead of {to}"
            if not why and o[0].startswith("deserialize_"):
                t = target(e, D, r)
                if t is None:
                    unknown = True
                elif t != 2:
                    why = f"it reads event {t} instead of the alias's target"
        elif good is None:
            unknown = True
        if why:
            bad.append((fz, why, r))
    sure = [x for x in bad if x[0] in ("yes", "free")] or (bad if len(bad) == len(rs) else [])
    if sure:
        ck.obl(False, key, f"{msg}; {sure[0][1]}", f"{sure[0][2][3].infn} {sure[0][2][3].span}")
    elif bad or unknown:
        ck.undecided(key, msg)
    else:
        ck.obl(True, key)


def desc_alias(msg):
    return msg.endswith("at the alias's target")


def reads_target(e, r):
    """the path itself looks at the event the alias stands for"""
    p, ev = r[3], r[4]
    ev.at(r[5])
    for f in p.facts:
        for x in e.subterms(f):
            k = e.terms[x]
            if k[0] == "a" and base(k[1])[1] in ("get", "index", "get_unchecked") and len(k[2]) == 2 and "Event" in (e.ty(x) or ""):
                v = ev.ev(k[2][1])
                if isinstance(v, I) and v.const == 2:
                    return True
    return False


def target(e, D, r):
    p, ev = r[3], r[4]
    vs = set()
    for c in p.calls():
        if c.last.startswith("deserialize_"):
            for s in D.states(e, c.args[0]):
                if e.terms[s][0] == "A" and D.pos in e.fields(s):
                    x = e.fields(s)[D.pos]
                    v = ev.ev(e.terms[x][2] if e.terms[x][0] == "r" else x)
                    vs.add(v.const if isinstance(v, I) else None)
    return vs.pop() if len(vs) == 1 else None


def skipping(ck, e, D):
    """an ignored node is skipped with all it contains and nothing else"""
    a, q = scalar("a"), scalar("b", "SingleQuoted", "!t")
    so, sc, mo, mc = start("["), END["]"], start("{"), END["}"]
    cases = [("an empty sequence", [so, sc]), ("a sequence of scalars", [so, a, q, sc]), ("an empty mapping", [mo, mc]), ("a mapping", [mo, a, q, a, a, mc]), ("a sequence in a sequence", [so, so, a, sc, a, sc]), ("a mapping in a sequence", [so, mo, a, a, mc, sc]), ("a sequence in a mapping", [mo, a, so, q, sc, mc]),
             ("a mapping as a key", [mo, mo, mc, a, mc]), ("a sequence with an alias", [so, alias(3), a, sc]), ("empty containers in a sequence", [so, so, sc, mo, mc, so, sc, sc]), ("three levels", [so, mo, a, so, a, sc, mc, a, sc]), ("a mapping in a mapping", [mo, a, mo, a, a, mc, a, a, mc]), ("mixed nesting", [mo, so, mo, mc, sc, mo, so, sc, so, sc, mc, mc])]
    allp = Paths(e, e.paths)
    for what, evs in cases:
        rs = reads(e, D, events(*evs, scalar("next"), scalar("after"), scalar("more")), paths=allp, aliases={3: 0})
        judge(ck, "text:ignored_any:nesting", e, D, rs, lambda o: o == ("visit_unit", ()), len(evs), f"skipping {what} should take exactly its {len(evs)} events")


# ---- the top-level deserializer
def top(ck):
    R = run.analyse(dict(TOP_GROUP))
    n = 0
    for e in R.entries:
        if not e.name.startswith("<Deserializer as Deserializer>::deserialize_"):
            continue
        m = e.name.rsplit("::", 1)[-1]
        if e.error or e.cut:
            ck.undecided(f"top:{m}", "not analysed")
            continue
        ck.use(e)
        params = [t for t, _ in e.params[1:]]
        seen = 0
        for p in e.paths:
            for c in p.calls():
                if not c.last.startswith("deserialize_") and c.last != "deserialize":
                    continue
                if c.last == "deserialize":
                    ck.undecided(f"top:{m}", "generic read")
                    continue
                seen += 1
                same_kind = c.last == m or kind(c.last[12:]) == kind(m[12:]) and kind(m[12:]) not in ("seq", "map")
                ck.obl(True if c.last == m else False, f"top:{m}", f"the top-level deserializer turns a request of {m[12:]} into one of {c.last[12:]}", f"{p.infn} {c.span if hasattr(c, 'span') else p.span}")
                if c.last != m:
                    continue
                args = c.args[1:]
                if len(args) != len(params):
                    ck.undecided(f"top:{m}:arguments", "")
                    continue
                for a, q in zip(args, params):
                    k = e.terms[a]
                    if a == q or k[0] in ("r", "m") and q in e.subterms(a):
                        ck.obl(True, f"top:{m}:arguments")
                    elif a in params or k[0] in ("i", "s") or k[0] == "b":
                        ck.obl(False, f"top:{m}:arguments", f"the top-level deserializer passes on another name, length or list of fields than it was asked for in {m}", f"{p.infn} {p.span}")
                    else:
                        ck.undecided(f"top:{m}:arguments", "")
        n += seen
        if not seen and not any(c.last == "deserialize" for p in e.paths for c in p.calls()):
            ck.undecided(f"top:{m}", "no nested read found")
    ck.floor("top-level requests", n, 31)


# ---- reading from a Value
def vnodes():
    for l, v in valde.nodes():
        tags = 0
        x = v
        while x.variant == "Tagged":
            tags += 1
            x = x.fields["0"].fields["value"]
        yield l, v, tags, x


def number_payload(x):
    n = x.fields["0"]
    while isinstance(n, Adt) and not n.variant:
        n = next(iter(n.fields.values()))
    return n.variant, n.fields.get("0")


def vwant(m, v, tags, x):
    """None: fails; else (callback, canonical payload or None)"""
    k = kind(m)
    c = valde.canon
    if m == "ignored_any":
        return ("visit_unit", None)
    if m == "newtype_struct":
        return ("visit_newtype_struct", None)
    if k == "option":
        return ("visit_none", None) if v.variant == "Null" else ("visit_some", None)
    if k == "enum":
        return ("visit_enum", None) if v.variant in ("Tagged", "String") else None
    if m == "any" and tags:
        return ("visit_enum", None)
    kd = x.variant
    if kd == "Null":
        if m == "any" or k == "unit":
            return ("visit_unit", None)
        return ("visit_" + k, ("list",)) if k in ("seq", "map") else None
    if kd == "Bool":
        return ("visit_bool", c(x.fields["0"])) if k in ("bool", "any") else None
    if kd == "Number":
        if m == "any" or m in NUMS:
            nk, p = number_payload(x)
            return ({"PosInt": "visit_u64", "NegInt": "visit_i64", "Float": "visit_f64"}[nk], c(p))
        return None
    if kd == "String":
        return ("visit_str", c(x.fields["0"])) if k in ("str", "any", "bytes") else None
    if kd == "Sequence":
        return ("visit_seq", c(x.fields["0"])) if k in ("seq", "any", "bytes") else None
    if kd == "Mapping":
        return ("visit_map", None) if k in ("map", "any") else None


def values(ck):
    R = run.analyse(dict(valde.VALDE_GROUP))
    n = 0
    for e in R.entries:
        if not re.match(r"<&?('\w+ )?Value as Deserializer>::deserialize_", e.name):
            continue
        m = e.name.rsplit("::deserialize_", 1)[-1]
        if e.error or e.cut:
            ck.undecided(f"value:{m}", "not analysed")
            continue
        ck.use(e)
        b = run.Budget(15)
        for l, v, tags, x in vnodes():
            if b.over():
                ck.undecided(f"value:{m}", "time")
                break
            if kind(m) == "unit" and tags and x.variant == "Null":
                continue            # a tagged null may be taken for a unit or not
            want = vwant(m, v, tags, x)
            key = f"value:{'ref ' if '&' in e.name.split(' as ')[0] else ''}{m}:{x.variant}"
            sg = valde.signatures(e, valde.selfenv(e, node=v))
            n += 1
            msg = f"a read of {m} from {l} should {'make ' + want[0] if want else 'fail'}"
            bad, unknown = [], not sg
            for fz, s in sg:
                evs = [x for x in s.events if x[0].startswith(("visit_", "deserialize"))]
                if not evs:
                    if s.result is None:
                        unknown = True
                        continue
                    o = None if s.result[1:2] == ("Err",) or s.result == ("panic",) else "no callback at all"
                    good = want is None and o is None and s.result != ("panic",)
                else:
                    o = evs[0]
                    if o[0].startswith("deserialize"):
                        unknown = True
                        continue
                    if len(evs) > 1:
                        good = False
                    elif want is None or o[0] != want[0]:
                        good = same_number(o, want)
                    elif want[1] is None:
                        good = True
                    elif not o[1] or o[1][0] is None:
                        unknown = True
                        continue
                    else:
                        good = o[1][0] == want[1]
                if not good:
                    bad.append((fz, "it " + ("fails" if o is None else f"makes {valde_show(o)}" if isinstance(o, tuple) else "makes no callback"), s))
            sure = [y for y in bad if y[0] in ("yes", "free")] or (bad if len(bad) == len(sg) else [])
            if sure:
                ck.obl(False, key, f"{msg}; {sure[0][1]}", f"{e.name} {e.span}")
            elif bad or unknown:
                ck.undecided(key, l)
            else:
                ck.obl(True, key)
    ck.floor("value reads", n, 2500)
    numbers(ck)


def numbers(ck):
    R = run.analyse(dict(entries=["number|<*Number as Deserializer>::deserialize_*"], max_paths=4000))
    n = 0
    for e in R.entries:
        m = e.name.rsplit("::deserialize_", 1)[-1]
        if e.error or e.cut:
            ck.undecided(f"number:{m}", "not analysed")
            continue
        ck.use(e)
        for l, v in valde.plain_nodes():
            if v.variant != "Number":
                continue
            num = v.fields["0"]
            env = {t: num for t, k in e.terms.items() if t == e.params[0][0] or k[0] == "d" and k[1] == e.params[0][0]}
            nk, p = number_payload(v)
            if m == "ignored_any":
                continue
            want = ({"PosInt": "visit_u64", "NegInt": "visit_i64", "Float": "visit_f64"}[nk], valde.canon(p))
            sg = valde.signatures(e, env)
            n += 1
            bad, unknown = [], not sg
            for fz, s in sg:
                evs = [x for x in s.events if x[0].startswith("visit_")]
                if len(evs) != 1 or want[1] is not None and evs[0][1] and evs[0][1][0] is None:
                    unknown = True
                elif not (evs[0][0] == want[0] and (want[1] is None or evs[0][1][0] == want[1]) or same_number(evs[0], want)):
                    bad.append((fz, evs[0]))
            sure = [y for y in bad if y[0] in ("yes", "free")] or (bad if len(bad) == len(sg) else [])
            if sure:
                ck.obl(False, f"number:{m}", f"a read of {m} from the Number {l} should make {want[0]}; it makes {valde_show(sure[0][1])}", f"{e.name} {e.span}")
            elif bad or unknown:
                ck.undecided(f"number:{m}", l)
            else:
                ck.obl(True, f"number:{m}")
    ck.floor("number reads", n, 20)


def same_number(o, want):
    """an integer may be delivered through either integer callback it fits"""
    return bool(want and want[0] in ("visit_u64", "visit_i64") and o[0] in ("visit_u64", "visit_i64", "visit_u128", "visit_i128") and o[1] and want[1] is not None and o[1][0] == want[1])


def valde_show(o):
    from rules import c20
    return c20.text_of(o)


# ---- building a Value
def record(ck):
    R = run.analyse(dict(entries=["value::de::*|<* as Visitor>::visit_*"], max_paths=4000))
    n = 0
    cases = {"visit_bool": [(B(True), ("Bool", B(True))), (B(False), ("Bool", B(False)))], "visit_u64": [(I(v, v), ("PosInt", v)) for v in (0, 1, 7, 2 ** 32, 2 ** 63, 2 ** 64 - 1)],
             "visit_i64": [(I(v, v), ("NegInt" if v < 0 else "PosInt", v)) for v in (-2 ** 63, -2 ** 31 - 1, -1, 0, 1, 2 ** 63 - 1)], "visit_f64": [(F(c, "x" if c != "nan" else "nan"), ("Float", None)) for c in FCLASSES],
             "visit_str": [(S(t), ("String", t)) for t in ("", "text", "null", "1", "true")], "visit_string": [(S(t), ("String", t)) for t in ("", "text", "null", "1", "true")], "visit_unit": [(None, ("Null", None))], "visit_none": [(None, ("Null", None))]}
    for e in R.entries:
        m = e.name.rsplit("::", 1)[-1]
        if m not in cases:
            continue
        if e.error or e.cut:
            ck.undecided(f"record:{m}", "not analysed")
            continue
        ck.use(e)
        for v, want in cases[m]:
            env = {}
            if v is not None:
                a = e.params[1][0]
                env[a] = v
                for t, k in e.terms.items():
                    if k[0] == "d" and k[1] == a:
                        env[t] = v
            ev = Ev(e, env, fns=valde.fns(dict(FNS, **STR_FNS)))
            rs = list(ev.outcomes(("return", "panic")))
            n += 1
            bad, unknown = [], not rs
            for fz, p, ch in rs:
                ev.at(ch)
                g = None if p.end != "return" else recorded(ev.ev(p.val))
                if p.end == "panic":
                    bad.append((fz, "a panic", p))
                elif g is None:
                    unknown = True
                elif g != rec_want(want, v):
                    bad.append((fz, str(g), p))
            sure = [y for y in bad if y[0] in ("yes", "free")] or (bad if len(bad) == len(rs) else [])
            if sure:
                ck.obl(False, f"record:{m}", f"a Value built from {m}({v if v is not None else ''}) is {sure[0][1]}", f"{e.name} {sure[0][2].span}")
            elif bad or unknown:
                ck.undecided(f"record:{m}", str(v))
            else:
                ck.obl(True, f"record:{m}")
    ck.floor("recorded values", n, 25)
    built(ck)


def built(ck):
    """what the visitors of Value and TaggedValue make of contents read elsewhere, and what the types ask for"""
    R = run.analyse(dict(entries=["value::*|<* as Visitor>::*", "value::*|*::deserialize", "mapping|<Mapping as Deserialize>::deserialize", "number|<Number as Deserialize>::deserialize"], max_paths=4000))
    ok, err = (lambda v: Adt("Result", "Ok", {"0": v})), Adt("Result", "Err", {"0": X("error")})
    TAG, IN = X("tag"), X("contents")
    src = X("source")
    one = ("deserialize", "deserialize_any", "deserialize_map", "deserialize_seq", "newtype_variant", "newtype_variant_seed", "deserialize_option", "deserialize_newtype_struct")
    byty = {}
    for e in R.entries:
        ty, _, m = e.name.rpartition(" as Visitor>::")
        if ty:
            byty.setdefault((e.module.split("::[")[0], ty.lstrip("<")), {})[m] = e
    n = 0

    def go(key, e, env, over, want, what):
        nonlocal n
        if e.error or e.cut:
            return ck.undecided(key, "not analysed")
        ck.use(e)
        n += 1
        fns = valde.fns(dict(FNS, **STR_FNS))
        fns.update(over)
        ev = Ev(e, env, fns=fns)
        rs = list(ev.outcomes(("return", "panic")))
        bad, unknown = [], not rs
        for fz, p, ch in rs:
            ev.at(ch)
            g = ev.ev(p.val) if p.end == "return" else None
            w = "a panic" if p.end == "panic" else want(g)
            if w is None:
                unknown = True
            elif w is not True:
                bad.append((fz, w, p))
        sure = [y for y in bad if y[0] in ("yes", "free")] or (bad if len(bad) == len(rs) else [])
        if sure:
            ck.obl(False, key, f"{what}: the result is {sure[0][1]}", f"{e.name} {sure[0][2].span}")
        elif bad or unknown:
            ck.undecided(key, what)
        else:
            ck.obl(True, key)

    def is_err(g):
        return None if not isinstance(g, Adt) or g.variant not in ("Ok", "Err") else True if g.variant == "Err" else f"{g!r} instead of an error"

    def val(variant, inner):
        def want(g):
            if not isinstance(g, Adt) or g.variant not in ("Ok", "Err"):
                return None
            if g.variant == "Err":
                return "an error"
            v = g.fields.get("0")
            if variant is not None:
                if not isinstance(v, Adt) or not v.variant:
                    return None
                if v.variant != variant:
                    return f"{v!r}"
                v = v.fields.get("0")
            return inner(v)
        return want

    def same(v):
        while isinstance(v, Adt) and len(v.fields) == 1:
            v = next(iter(v.fields.values()))
        return True if v == IN else None if v is None or isinstance(v, X) else f"{v!r}"

    def pair(v, IN):
        while isinstance(v, Adt) and len(v.fields) == 1:
            v = next(iter(v.fields.values()))
        if not isinstance(v, Adt) or v.variant or set(v.fields) != {"tag", "value"}:
            return None
        t, c = v.fields["tag"], v.fields["value"]
        return True if (t, c) == (TAG, IN) else f"tag {t!r}, value {c!r}" if (t is not None and t != TAG) or (c is not None and c != IN) else None
    enum_ok = {"call:variant_seed": lambda ev, av, at, c: ok(Adt("tuple", None, {"0": TAG, "1": X("access")})), "call:variant": lambda ev, av, at, c: ok(Adt("tuple", None, {"0": TAG, "1": X("access")}))}
    gives = lambda r: {"call:" + k: lambda ev, av, at, c: r for k in one}
    for (mod, ty), ms in sorted(byty.items()):
        if mod == "value::de" and "visit_bool" in ms:
            need = "bool i64 u64 f64 str unit none some seq map enum".split()
            for m in need:
                ck.obl("visit_" + m in ms or m in ("str",) and "visit_string" in ms, f"record:visit_{m}:handled", f"the visitor that builds a Value has no visit_{m}: serde's default refuses the data", f"src/value/de.rs {ty}")
            for m, variant in (("seq", "Sequence"), ("map", "Mapping"), ("some", None)):
                e = ms.get("visit_" + m)
                if e:
                    env = {e.params[1][0]: src}
                    go(f"record:visit_{m}", e, env, gives(ok(IN)), val(variant, same), f"a Value built from the contents of a {m}")
                    go(f"record:visit_{m}:error", e, env, gives(err), is_err, f"a Value built from a {m} whose contents fail")
        e = ms.get("visit_enum")
        if e and ("visit_bool" in ms or ty.startswith("TaggedValue") or mod.endswith("tagged")):
            v = "Tagged" if "visit_bool" in ms else None
            env = {e.params[1][0]: src}
            for c in (IN, Val("Null", None), Val("Bool", B(False)), Val("String", ""), Val("String", "x"), Val("Number", Num(N("PosInt", I(0, 0)))), Val("Sequence", X("items")), Val("Mapping", X("entries")), Val("Tagged", X("tagged"))):
                go(f"record:{ty}:visit_enum", e, env, dict(gives(ok(c)), **enum_ok), val(v, lambda x, c=c: pair(x, c)), f"a tagged value built from a tag and the contents {c!r}")
            go(f"record:{ty}:visit_enum:error", e, env, dict(gives(err), **enum_ok), is_err, "a tagged value whose contents fail")
            go(f"record:{ty}:visit_enum:tag", e, env, dict(gives(ok(IN)), **{k: lambda ev, av, at, c: err for k in enum_ok}), is_err, "a tagged value whose tag fails")
        elif ty.startswith("TaggedValue"):
            ck.obl(False, f"record:{ty}:handled", f"{ty} has no visit_enum: serde's default refuses every tagged value", f"{mod} {ty}")
        if mod == "value::tagged" and ("visit_str" in ms or "visit_string" in ms) and "visit_enum" not in ms:
            for m in ("visit_str", "visit_string"):
                e = ms.get(m)
                for t in ("foo", "!foo", "a b", "!", "", "foo\n", " foo", "\tfoo ", "\u00e9", "FOO", "a!b") if e else ():
                    def tagtext(v, t=t):
                        while isinstance(v, Adt) and len(v.fields) == 1:
                            v = next(iter(v.fields.values()))
                        return None if not isinstance(v, S) else True if v.s == t or v.s.lstrip("!") == t.lstrip("!") != "" else f"the tag {v.s!r}"
                    go(f"record:tag:{m}:{t}", e, {e.params[1][0]: S(t)}, {}, is_err if not t else val(None, tagtext), f"a tag built from {t!r}")
    asks = {"Value": ("any",), "TaggedValue": ("any", "enum"), "Mapping": ("map", "any"), "Number": ("any",)}
    for e in R.entries:
        ty = e.name.partition(" as Deserialize>::")[0].lstrip("<")
        if not e.name.endswith("as Deserialize>::deserialize") or ty not in asks:
            continue
        if e.error or e.cut:
            ck.undecided(f"record:{ty}:request", "not analysed")
            continue
        ck.use(e)
        n += 1
        for p in e.paths:
            cs = [c for c in p.all_calls() if c.last.startswith("deserialize") and c.args and c.args[0] == e.params[0][0]]
            if p.end != "return" or not cs or cs[0].last == "deserialize":
                ck.undecided(f"record:{ty}:request", e.name)
            else:
                ck.obl(cs[0].last[len("deserialize_"):] in asks[ty], f"record:{ty}:request", f"a {ty} is asked for with {cs[0].last}", f"{e.name} {cs[0].span}")
    ck.floor("values built from contents", n, 18)


def rec_want(want, v):
    k, x = want
    if k == "Bool":
        return ("Bool", x.const)
    if k == "Float":
        return ("Float", tuple(sorted(v.classes)), None if "nan" in v.classes else v.src)
    return (k, x)


def recorded(v):
    if not isinstance(v, Adt) or v.variant not in ("Ok", "Err"):
        return None
    if v.variant == "Err":
        return "an error"
    v = v.fields.get("0")
    if not isinstance(v, Adt) or not v.variant:
        return None
    x = v.fields.get("0")
    if v.variant == "Null":
        return ("Null", None)
    if v.variant == "Bool" and isinstance(x, I) and x.const is not None:
        return ("Bool", x.const)
    if v.variant == "String":
        while isinstance(x, Adt) and len(x.fields) == 1:
            x = next(iter(x.fields.values()))
        return ("String", x.s) if isinstance(x, S) else None
    if v.variant == "Number":
        while isinstance(x, Adt) and not x.variant and len(x.fields) == 1:
            x = next(iter(x.fields.values()))
        if isinstance(x, Adt) and x.variant:
            y = x.fields.get("0")
            if isinstance(y, I) and y.const is not None:
                return (x.variant, y.const)
            if isinstance(y, F):
                return (x.variant, tuple(sorted(y.classes)), None if "nan" in y.classes else y.src)
    if v.variant in ("Sequence", "Mapping", "Tagged"):
        return (v.variant, None)
    return None
