from scalar import *
import run
from rules import c01

WHAT = ("The untyped read and the typed reads of bool, integers, floats, unit and option are evaluated on scalars of every style, with no tag, each core-schema tag, a local tag, and a tag that has already selected an enum variant: a quoted or block scalar is only a string, a core tag selects its type or fails, "
        "a consumed tag has no influence.")
ASSUMES = ["texts of one lexical class are treated alike beyond the distinctions the code itself makes", "the std number parsers behave as documented"]
STYLES = ("Plain", "SingleQuoted", "DoubleQuoted", "Literal", "Folded")
CORE = "tag:yaml.org,2002:"
TAGS = (None, "bool", "int", "float", "null", "str", "!t")
WORDS = ("true", "False", "1", "-5", "+7", "0x1F", "-0o17", "300", "18446744073709551616", "1.5", ".5", "1e3", ".inf", "-.Inf", ".nan", "null", "~", "NULL", "", "01", "text", "tru", "1x", "nul", "0x", "True ", "yes")


def full(tag):
    return None if tag is None else tag if tag.startswith("!") else CORE + tag


def untyped_want(w, style, tag, consumed):
    """predicate on outcomes of the untyped read, None = not claimed"""
    string = lambda o: o == ("visit_str", (w,))
    err = lambda o: o == "error"
    if consumed or tag is None:
        return c01.untyped_ok(w)[2] if style == "Plain" else string
    if tag.startswith("!"):
        return lambda o: isinstance(o, tuple) and o[0] == "visit_enum"
    if tag == "str":
        return string
    if tag == "null":
        if w == "":
            return None
        return (lambda o: o == ("visit_unit", ())) if w in NULLS else err
    if tag == "float":
        if leading_zero(w):
            return None
        f = float_value(w)
        return err if f is None else lambda o: o == ("visit_f64", (f,))
    k, v, ok = c01.untyped_ok(w)
    return ok if k == tag else err


def typed_want(req, w, style, tag, consumed):
    err = lambda o: o == "error"
    some = lambda o: isinstance(o, tuple) and o[0] == "visit_some"
    none = lambda o: o == ("visit_none", ())
    plain = style == "Plain"
    if consumed:
        tag = None
    if req == "option":
        if not plain and (tag is None or not tag == "null"):
            return some
        if not plain:
            return None
        if tag is None:
            return c01.typed_ok(req, w)
        if tag != "null":
            return some
        return None if w == "" else none if w in NULLS else err
    kind = {"unit": "null", "unit_struct": "null", "bool": "bool", "f32": "float", "f64": "float"}.get(req, "int")
    if tag is None:
        return c01.typed_ok(req, w) if plain else err
    if not plain:
        if tag != kind:
            return err
        ok = c01.typed_ok(req, w)
        return None if w == "" else lambda o: o == "error" or ok(o)
    if tag == kind:
        return None if w == "" or kind == "float" and leading_zero(w) else c01.typed_ok(req, w)
    ok = c01.typed_ok(req, w)       # a plain scalar with another tag: its own kind or an error
    return lambda o: o == "error" or ok(o)


def check(ck):
    R = run.analyse(dict(SCALAR_GROUP))
    D = DE(ck, R)
    if D.name is None:
        return
    by = {e.name.rsplit("::", 1)[-1]: e for e in D.entries("Deserializer") if e.name.startswith("<&mut ")}
    ws = sorted(set(WORDS) | {w for w in literals(R) if len(w) < 12 and not w.startswith("!")})
    n = 0
    for m in ["any", "bool", "unit", "unit_struct", "option", "f32", "f64"] + list(INT_T):
        e = by.get("deserialize_" + m)
        if e is None or e.error or e.cut:
            ck.undecided(m, "not analysed")
            continue
        ck.use(e)
        b = run.Budget(45 if m == "any" else 25)
        for consumed in (False, True):
            for style in STYLES:
                for tag in TAGS if not consumed else ("!t", "str", "int"):
                    kw = dict(enum="t") if consumed else {}
                    ps = narrow(e, D, scalar(None, style, full(tag)), **kw)
                    for w in ws:
                        if style == "Plain" and tag is None and not consumed:
                            continue            # C01
                        want = untyped_want(w, style, tag, consumed) if m == "any" else typed_want(m, w, style, tag, consumed)
                        if want is None:
                            continue
                        if b.over():
                            ck.undecided(m, "time")
                            continue
                        rs = reads(e, D, events(scalar(w, style, full(tag))), paths=ps, **kw)
                        n += 1
                        what = f"{'a plain' if style == 'Plain' else style} scalar {w!r}" + (f" tagged {'!' + tag.strip('!') if tag.startswith('!') else '!!' + tag}" if tag else "") + (" whose tag selected an enum variant" if consumed else "")
                        key = f"{m}:{'consumed' if consumed else tag or 'untagged'}:{'plain' if style == 'Plain' else 'quoted'}"
                        decide(ck, key, rs, want, f"a read of {m} from {what}")
    ck.floor("scalar reads", n, 10000)
    pending(ck, D)


def pending(ck, D):
    """a tag that selected a variant is forgotten once the node it stood on is taken, and handed on when the node is"""
    if not D.enum:
        ck.undecided("pending", "no field for the consumed tag")
        return
    n = 0
    for e in D.entries("Deserializer"):
        if not e.name.startswith("<&mut ") or e.error or e.cut:
            continue
        m = e.name.rsplit("::deserialize_", 1)[-1]
        ck.use(e)
        for what, evs in [(f"the scalar {w!r}", [scalar(w, "Plain", "!t")]) for w in ("5", "true", "1.5", "~", "text")] + [("a sequence", [start("[", "!t"), END["]"]]), ("a mapping", [start("{", "!t"), END["}"]]), ("nothing", [VOID])]:
            for r in reads(e, D, events(*evs), enum="t"):
                fz, cs, res, p, ev, ch = r
                if p.end != "return" or res != "Ok":
                    continue
                ev.at(ch)
                last = [c[0] for c in cs if c[0].startswith("visit_")]
                if len(last) != 1:
                    continue
                hand = last[0] in ("visit_some", "visit_newtype_struct", "visit_enum")
                f = final_enum(e, D, p, ev, True)
                n += 1
                if f is None:
                    ck.undecided(f"{m}:pending", what)
                elif last[0] == "visit_enum":
                    continue
                elif f != hand and fz in ("yes", "free"):
                    ck.obl(False, f"{m}:pending", f"a read of {m} from {what} whose tag selected an enum variant " + ("hands it on without remembering that its tag is used up" if hand else "takes the node but leaves its tag pending, so that the tag of the next node is ignored"), f"{p.infn} {p.span}")
                elif f == hand:
                    ck.obl(True, f"{m}:pending")
    ck.floor("pending tags", n, 60)
