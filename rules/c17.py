import itertools
from absval import *
from sim import *
from destate import *
from scalar import *
import sysevents
import run

WHAT = ("On every extracted path of the streaming deserializer that gives text to a visitor, the bytes must have been accepted by from_utf8 or compared equal to bytes that were; every conversion to str that skips the test, anywhere in the crate, needs such a proof on its path. "
        "Text given as borrowed must be a part of the stored slice of the input; that slice is stored only for borrowed input and is cut out of it; and the borrowed text is the decoded one for sample scalars of every style, with and without escapes and with a stored slice that does not match.")
ASSUMES = ["std's str::from_utf8 is correct", "the low-level parser's marks delimit some part of the input (a wrong part is compared and rejected)", "the compiler's borrow checker holds safe code to the declared lifetimes"]
STYLES = ("Plain", "SingleQuoted", "DoubleQuoted", "Literal", "Folded")
# decoded text, stored slice
SAMPLES = [("Plain", "abc", "abc"), ("Plain", "a b", "a\n b"), ("Plain", "abc", "xabc"), ("Plain", "abc", "abcx"), ("Plain", "", ""), ("Plain", "abc", "xyz"), ("Plain", "abc", ""), ("Plain", "abc", "axc"), ("Plain", "abc", "abx"), ("Plain", "abc", "bbc"), ("DoubleQuoted", "ab", '"ax"'), ("SingleQuoted", "abc", "'xbc'"),
           ("SingleQuoted", "abc", "'abc'"), ("SingleQuoted", "a'b", "'a''b'"), ("SingleQuoted", "", "''"), ("SingleQuoted", "abc", "'xyz'"), ("SingleQuoted", "abc", "!t 'abc'"), ("SingleQuoted", "'", "''''"), ("SingleQuoted", "a", ""), ("SingleQuoted", "", "'"),
           ("DoubleQuoted", "abc", '"abc"'), ("DoubleQuoted", "a\nb", '"a\\nb"'), ("DoubleQuoted", "", '""'), ("DoubleQuoted", "n", '"\\n"'), ("DoubleQuoted", "ab", '"xy"'), ("DoubleQuoted", "abc", "\\\"abc\""),
           ("Literal", "abc\n", "|\n abc\n"), ("Literal", "abc", "|-\n abc"), ("Folded", "abc\n", ">\n abc\n"), ("Folded", "a b", ">-\n a\n b")]
TEXTY = ("visit_str", "visit_borrowed_str", "visit_string")


def content(e, t):
    """the bytes a text or byte view is made of"""
    while True:
        k = e.terms[t]
        if k[0] in ("v", "d"):
            t = k[1]
        elif k[0] in ("c", "S"):
            t = k[2]
        elif k[0] == "A" and not k[2] and len(k[3]) == 1 and not k[4]:
            t = k[3][0]
        elif k[0] == "f" and k[2] == "Ok" and e.terms[k[1]][0] == "a" and base(e.terms[k[1]][1])[1] == "from_utf8":
            t = e.terms[k[1]][2][0]
        elif k[0] == "f" and k[2] == "Some" and e.terms[k[1]][0] == "a" and base(e.terms[k[1]][1])[1] == "from_utf8":
            t = k[1]
        elif k[0] == "a" and len(k[2]) == 1 and base(k[1])[1] in ("as_bytes", "as_ref", "deref", "as_str", "borrow", "from_utf8_unchecked", "as_slice"):
            t = k[2][0]
        else:
            return t


def proofs(e, p):
    """(contents known to be UTF-8, pairs known equal, contents of failed tests)"""
    ok, eqs, bad = set(), [], {}
    for t, dom in p.facts.items():
        k = e.terms[t]
        if k[0] == "D":
            a = e.terms[k[1]]
            if a[0] == "a" and base(a[1])[1] == "from_utf8" and "in" in dom:
                if dom["in"] == ["Ok"]:
                    ok.add(content(e, a[2][0]))
                elif dom["in"] == ["Err"]:
                    bad[k[1]] = content(e, a[2][0])
        true = dom.get("in") == [1] or 0 in dom.get("not", [])
        if k[0] == "a" and len(k[2]) == 2 and true and (k[1] in ("EQ", "eq") or base(k[1])[1] in ("eq", "equal")):
            eqs.append((content(e, k[2][0]), content(e, k[2][1])))
        if k[0] == "b" and k[1] == "Eq" and true:
            eqs.append((content(e, k[2]), content(e, k[3])))
    return ok, eqs, bad


def is_text(e, t):
    ty = (e.ty(t) or "").replace("&", "").replace("mut ", "").strip()
    k = e.terms[t]
    return k[0] == "s" or ty in ("str", "String") and k[0] in ("y", "f", "d")


def valid(e, p, t):
    """True, or None with no evidence"""
    x = content(e, t)
    ok, eqs, bad = proofs(e, p)
    good = set(ok)
    for _ in range(3):
        for a, b in eqs:
            for u, v in ((a, b), (b, a)):
                if u in good or is_text(e, u) or e.terms[u][0] in ("s", "i"):
                    good.add(v)
    if x in good or is_text(e, x):
        return True
    k = e.terms[x]
    # the part of a tested text before its first invalid byte
    if k[0] == "a" and len(k[2]) == 2 and base(k[1])[1] in ("index", "get_unchecked"):
        src, rng = content(e, k[2][0]), e.terms[k[2][1]]
        if rng[0] == "A" and (e.ty(k[2][1]) or "").rpartition("::")[2].startswith("RangeTo<") or rng[0] == "A" and "RangeTo" in rng[1]:
            end = rng[3][0]
            c = e.call_of(end)
            if c is not None and "valid_up_to" in str(c.last if hasattr(c, "last") else c):
                for f, b in bad.items():
                    if b == src or any(s == f for a in c.args for s in e.subterms(a)):
                        return True
        # a part of a text cut where str allows it
        if src in good and "str" in k[1]:
            return True
    return None


def besides_length(e, t):
    """the terms a condition depends on, other than by their length alone"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x)
        k = e.terms[x]
        if k[0] == "a" and base(k[1])[1].lower() in ("len", "is_empty"):
            continue
        todo += e.children(x) if hasattr(e, "children") else []
    return out


def beyond(e, t):
    """how far a part of a text that failed the test reaches, when that is past its valid part"""
    k = e.terms[t]
    if k[0] == "a" and len(k[2]) == 2 and base(k[1])[1] in ("index", "get_unchecked"):
        rng = e.terms[k[2][1]]
        if rng[0] == "A" and "RangeTo" in (rng[1] or "") + (e.ty(k[2][1]) or "") and len(rng[3]) == 1:
            b = e.terms[rng[3][0]]
            if b[0] == "b" and b[1] == "Add" and any("valid_up_to" in e.show(x) or e.call_of(x) is not None and e.call_of(x).last == "valid_up_to" for x in b[2:4]) and any(e.terms[x][0] == "i" for x in b[2:4]):
                return e.show(rng[3][0])[:60]
    return None


def origin(e, t):
    """field of the scalar the bytes are a part of: 'repr', 'value', ..., or None"""
    t = content(e, t)
    for _ in range(30):
        k = e.terms[t]
        if k[0] == "f" and (e.ty(k[1]) or "").partition("<")[0].endswith("Scalar"):
            return k[3]
        if k[0] == "f" and k[2] in ("Some", "Ok", "Borrowed", None) or k[0] in ("d", "v"):
            t = k[1]
        elif k[0] in ("c", "S"):
            t = k[2]
        elif k[0] == "a" and k[2] and base(k[1])[1] in ("get", "index", "get_unchecked", "split_at", "split_first", "split_last", "strip_prefix", "strip_suffix", "as_bytes", "deref", "as_ref"):
            t = k[2][0]
        elif k[0] == "f":
            t = k[1]
        else:
            return None
    return None


def check(ck):
    R, P, C = run.analyse(dict(SCALAR_GROUP), dict(sysevents.PARSER_GROUP), dict(entries=["libyaml::cstr|*", "libyaml::cstr::*|*", "libyaml::tag|*", "libyaml::emitter|*", "de|<*Access*", "loader|*"], max_paths=4000, structure=True))
    D = DE(ck, R)
    if D.name is None:
        return
    n = m = 0
    for e in D.entries("Deserializer"):
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut")
            continue
        name = e.name.rsplit("deserialize_", 1)[-1]
        ck.use(e)
        for p in e.paths:
            where = f"{e.name} {p.span}"
            for c in p.calls():
                if c.last not in TEXTY or len(c.args) < 2 or "Visitor" not in c.name:
                    continue
                n += 1
                o = origin(e, c.args[1])
                v = valid(e, p, c.args[1])
                if v is None and o in ("value", "repr") and not any(content(e, c.args[1]) in e.subterms(t) for t in p.facts if e.terms[t][0] != "D" or "from_utf8" not in e.show(t)):
                    ck.violation(f"{name}:{c.last}:unchecked", f"bytes of the input are given to {c.last} as text without having been checked", where)
                else:
                    ck.obl(v, f"{name}:{c.last}:utf8", e.show(c.args[1])[:120])
                if c.last == "visit_borrowed_str":
                    m += 1
                    ck.obl(None if o is None else o == "repr", f"{name}:borrowed", f"text is given as borrowed that is not a part of the input but of the scalar's {o}", where)
    ck.floor("texts given to visitors", n, 200)
    # what a scalar's bytes become, by example
    k = 0
    for e in D.entries("Deserializer"):
        if e.error or e.cut or not e.name.startswith("<&mut "):
            continue
        name = e.name.rsplit("deserialize_", 1)[-1]
        if not any(c.last in TEXTY for p in e.paths for c in p.calls()):
            continue
        for style, text, rep in SAMPLES + [(s, "abc", None) for s in STYLES] + [(s, "", None) for s in STYLES]:
            for tag in (None, "tag:yaml.org,2002:str"):
                for f, cs, res, p, ev, ch in reads(e, D, events(scalar(text, style, tag, rep))):
                    for n_, a in cs:
                        if n_ not in TEXTY:
                            continue
                        k += 1
                        where = f"{e.name} {p.span}"
                        got_ = a[-1] if a else None
                        ck.obl(None if got_ is None else sure(f, got_ == text), f"{name}:text", f"the {style} scalar {text!r} (written {rep!r}) is given to {n_} as {got_!r}", where)
                        if n_ == "visit_borrowed_str":
                            ck.obl(sure(f, rep is not None), f"{name}:reader", f"a {style} scalar of input that is not borrowed is given as borrowed text", where)
        # bytes that are not text
        fns = {"from_utf8": lambda ev, av, at, t: Adt("Result", "Err", {"0": X("utf8 error")}), "call:from_utf8": lambda ev, av, a, c: Adt("Result", "Err", {"0": X("utf8 error")})}
        for style in STYLES:
            for rep in (None, "abc"):
                evs = events(scalar("abc", style, None, rep))
                ev0 = Ev(e, text_env(e, D, evs), fns=dict(dict(FNS, **STR_FNS), **fns))
                sel = Paths(e, [p for p in e.paths if p.end in ("return", "panic", "back") and ev0.feasible(p) != "no"])
                for f, cs, res, p, ev, ch in reads(e, D, evs, fns=fns, paths=sel):
                    k += 1
                    ck.obl(sure(f, not any(n_.startswith("visit_") and n_ not in ("visit_bytes", "visit_borrowed_bytes", "visit_some", "visit_none", "visit_enum", "visit_newtype_struct") for n_, a in cs)), f"{name}:notutf8", f"a {style} scalar that is not UTF-8 is given to {[n_ for n_, a in cs]}", f"{e.name} {p.span}")
    ck.floor("sample scalars", k, 300)
    # conversions that skip the test
    j = 0
    covered = set()
    for r in (R, P, C):
        for e in r.entries:
            for p in e.paths:
                for c in p.all_calls():
                    if "unchecked" not in c.name or "utf8" not in c.name:
                        continue
                    j += 1
                    v = valid(e, p, c.args[0])
                    o = origin(e, c.args[0])
                    covered.add(e.name)
                    x = content(e, c.args[0])
                    named = any(x in besides_length(e, t) for t in p.facts)
                    far = beyond(e, x)
                    if v is None and far:
                        ck.violation(f"{e.name}:from_utf8_unchecked", f"bytes become a str up to {far}, past those found valid", f"{e.name} {p.span}")
                    elif v is None and r is R and o in ("value", "repr") and not named:
                        ck.violation(f"{e.name}:from_utf8_unchecked", "bytes of the input become a str without having been checked", f"{e.name} {p.span}")
                    elif v is None and r is C and not named and not e.cut and not any(e.terms[s][0] == "y" and e.terms[s][1] == "ret" for s in e.subterms(x)):
                        ck.violation(f"{e.name}:from_utf8_unchecked", "bytes become a str without having been checked", f"{e.name} {p.span}")
                    else:
                        ck.obl(v, f"{e.name}:from_utf8_unchecked", e.show(c.args[0])[:100])
    ck.floor("unchecked conversions followed", j, 1)
    own = set()
    for f in C.structure or []:
        for c in f["calls"]:
            nm, ret = c[0], c[2] or ""
            if "from_utf8_unchecked" in nm or "from_raw_parts" in nm and "str" in ret and "u8" not in ret or nm.rsplit("::", 1)[-1] in ("transmute", "as_bytes_mut", "as_mut_vec", "from_utf8_unchecked_mut") and ("str" in ret.replace("struct", "") or "String" in ret or nm.rsplit("::", 1)[-1] != "transmute"):
                own.add(f["fn"])
                known = "from_utf8_unchecked" in nm and (any(q.partition("<")[0].rsplit("::", 1)[-1] in f["fn"] for q in covered) or f["fn"].split("::")[-2:-1] == ["de"] or "::de::" in "::" + f["fn"])
                ck.obl(True if known else None, f"{f['fn']}:{nm.rsplit('::', 1)[-1]}", "a conversion to str outside the paths followed")
    ck.info["functions that convert without a test"] = sorted(own)
    # what is kept of the input
    s = sysevents.source_entry(P)
    if s is None:
        ck.undecided("stored", "no unique source of events")
    else:
        ck.use(s)
        q = 0
        for p, kinds, variant, fields, mark in sysevents.conversions(s):
            if variant != "Scalar" or "repr" not in fields:
                continue
            q += 1
            opt = sysevents.option(s, fields["repr"])
            kind = next((dom["in"][0] for t, dom in p.facts.items() if s.terms[t][0] == "D" and dom.get("in") in (["Owned"], ["Borrowed"])), None)
            where = f"{s.name} {p.span}"
            if opt is None:
                ck.undecided("stored", s.show(fields["repr"])[:80])
            elif opt[0] == "None":
                ck.obl(True, "stored")
            else:
                ck.obl(None if kind is None else kind == "Borrowed", "stored:owned", "a part of a buffer the parser owns is kept as if it were the caller's input", where)
                src = any(s.terms[x][0] == "f" and s.terms[x][2] == "Borrowed" for x in s.subterms(opt[1]))
                ck.obl(True if src else None, "stored:borrowed", s.show(opt[1])[:80])
            v = fields.get("value")
            if v is not None:
                u = sysevents.unionfields(s, v)
                ck.obl(None if not u else u == {"scalar.value", "scalar.length"}, "stored:value", f"the text of a scalar is made from {sorted(u)}", where)
        ck.floor("stored scalars", q, 10)
    # the parser reads the very input it keeps
    for e in P.entries:
        for p in e.paths:
            if p.end != "return":
                continue
            for c in p.calls():
                if c.last == "yaml_parser_set_input_string" and len(c.args) == 3:
                    ck.use(e)
                    ps = [{x for x in e.subterms(a) if e.terms[x][:2] == ["y", "param"]} for a in c.args[1:]]
                    ck.obl(bool(ps[0]) and ps[0] == ps[1] or None, "input", "pointer and length of the input come from different values")
                    ptr, ln = e.terms[c.args[1]], c.args[2]
                    while e.terms[ln][0] == "c":
                        ln = e.terms[ln][2]
                    lk = e.terms[ln]
                    same = content(e, ptr[2][0]) == content(e, lk[2][0]) if ptr[0] == "a" and lk[0] == "a" and base(lk[1])[1] == "len" and ptr[2] and lk[2] else None
                    whole = lk[0] == "a" and base(lk[1])[1] == "len"
                    ck.obl(True if same else False if lk[0] == "b" and lk[1] in ("Add", "Mul") else None, "input:length", f"the parser is told a length of {e.show(ln)[:60]}", f"{e.name} {p.span}")


def sure(f, ok):
    return None if ok is False and f not in ("yes", "free") else ok
