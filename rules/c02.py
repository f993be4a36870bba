from serproto import *
from scalar import words, literals, near_chars, untyped, leading_zero
import emitrule

WHAT = ("Writing a string is evaluated for a text of every lexical class of the core schema (every word with its neighbours, every radix, sign and width boundary, every float notation, digits with superfluous zeros, and every literal the code compares with), at top level, under a tag, "
        "as an element, key, field, variant name and displayed text; writing a char for characters of every class; and the emitter wrapper on scalars of every style: the style must keep the reader from resolving the text to anything but a string, and the characters must be the value's own.")
ASSUMES = ["texts of one lexical class are treated alike beyond the distinctions the code itself makes with literals, prefixes and the std number parsers", "libyaml picks a style for 'any' that preserves text which resolves to a string, and honours the quoted and literal styles"]
U = ("unit",)


def risky(w):
    return untyped(w)[0] != "str" or leading_zero(w)


def judge_style(w, style):
    """complaint about writing the string w in a style, or None"""
    if "\n" in w:
        return None if style == "Literal" else f"text with a line feed is written {style}"
    if risky(w) and style in ("Plain", "Any"):
        k = untyped(w)[0]
        return f"{w!r} is written {style}, but read back unquoted it is {'a number-like text with a superfluous zero' if k == 'str' else 'null' if k == 'unit' else k}"
    return None


def contexts(w):
    yield "top", ("str", w)
    yield "tagged", ("ntv", "v", ("str", w))
    yield "key", ("map", True, "entry", [(("str", w), U)])
    yield "value", ("map", False, "key", [(U, ("str", w))])
    yield "element", ("seq", "seq", [("str", w)])
    yield "variant", ("uv", w)
    yield "field", ("struct", [(w, U)])
    yield "variant field", ("sv", "v", [(w, U)])
    yield "displayed", ("text", w)
    if not w.startswith("!"):
        yield "displayed key", ("map", True, "entry", [(("text", w), U)])


def check(ck):
    R, = (run.analyse(SER_GROUP),)
    sim = SerSim(R)
    for e in sim.by.values():
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut")
        ck.use(e)
    ck.floor("serializer methods", len(sim.methods), 40)
    try:
        st0 = sim.initial()
    except Unknown as x:
        ck.undecided("initial", f"{x}")
        st0 = None
    budget = run.Budget(500)
    ws = sorted(set(words()) | literals(R) | near_chars(R) | {x for w in literals(R) for x in (w + 'a', 'a' + w, w + ' a', 'a ' + w)})
    nl = ["\n", "a\nb", "1\n", "null\n", "\ntrue", "a\r\nb"]
    some = ["", "~", "null", "True", "false", "0", "-1", "0x1F", "0o7", "0b1", "1.5", ".5", "-.inf", ".nan", "1e3", "007", "+08", "18446744073709551616", "text", "a b", "-", "+", "yes", "\u00e9", "a\nb", "12\n"]
    n = 0
    if st0 is not None:
        jobs = [("top", w, ("str", w)) for w in ws] + [(c, w, t) for w in some + nl for c, t in contexts(w)]
        for c, w, t in jobs:
            if budget.over():
                ck.undecided("texts", "time")
                break
            e = sim.methods["Serializer", "serialize_str"]
            try:
                evs = sim.events(sim.drive(t, st0))
            except Fail as f:
                ck.obl(None, f"{c}:fails", f"{f.kind}")
                continue
            except Panic as f:
                ck.obl(False, f"{c}:panic", f"writing {w!r} panics: {f}", f"{e.name} {e.span}")
                continue
            except Unknown as f:
                ck.obl(None, f"{c}:unknown", f"{f} for {w!r}"[:160])
                continue
            n += 1
            hit = [x for x in evs if x[0] == "scalar" and x[2] != "null" or x[0] == "scalar" and w == "null" and x[3] != "Plain"]
            hit = hit or [x for x in evs if x[0] == "scalar"]
            x = hit[0]
            if not isinstance(x[2], str):
                ck.obl(None, f"{c}:value", f"the characters written for {w!r} are not determined")
                continue
            ck.obl(x[2] == w, f"{c}:characters", f"the string {w!r} is written as {x[2]!r}", f"{e.name} {e.span}")
            if x[3] is None:
                ck.obl(None, f"{c}:style", f"the style of {w!r} is not determined")
                continue
            why = judge_style(w, x[3])
            kind = "newline" if "\n" in w else untyped(w)[0] if untyped(w)[0] != "str" else "zero" if leading_zero(w) else "str"
            ck.obl(why is None, f"{c}:style:{kind}", why or "", f"{e.name} {e.span}")
        # chars
        for ch in "a1~.-+0\u00e9\u4e2d\U0001f600\n\t \"'!&*#":
            e = sim.methods.get(("Serializer", "serialize_char"))
            if e is None:
                break
            for t in (Leaf(("call", "serialize_char", [I(ord(ch), ord(ch))])),):
                for ctx in (t, ("seq", "seq", [t]), ("ntv", "v", t), ("map", True, "entry", [(t, U)])):
                    try:
                        evs = sim.events(sim.drive(ctx, st0))
                    except (Fail, Panic, Unknown) as f:
                        ck.obl(None, "char:unknown", f"{f}"[:120])
                        continue
                    n += 1
                    x = next(x for x in evs if x[0] == "scalar")
                    ck.obl(None if not isinstance(x[2], str) else x[2] == ch, "char:characters", f"the char {ch!r} is written as {x[2]!r}", f"{e.name} {e.span}")
                    ck.obl(None if x[3] is None else x[3] not in ("Plain", "Any"), "char:style", f"the char {ch!r} is written {x[3]}", f"{e.name} {e.span}")
    ck.count("texts and chars decided", n)
    ck.count("texts", len(ws))
    ck.floor("texts", len(ws), 2000)
    emitrule.obligations(ck, "text")
