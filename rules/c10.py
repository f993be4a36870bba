import itertools
from absval import *
from model import *
from destream import *
from loadsim import *
from sysevents import *
import run

WHAT = ("The loader is driven through every stream of up to four documents (each empty-bodied, a scalar, an anchored scalar or a sequence), with a parse error or an unresolvable alias at every place, and through the calls that follow it; "
        "each call must hand out exactly the next document's events in order, and nothing after the end or after a failure except that failure.  The iterator of the deserializer is evaluated for every input kind and every answer of the loader, and the constructors must hand over exactly the caller's input.")
ASSUMES = ["the low-level parser reports the same error again after a parse error (its own state, checked by C18's lifecycle rule only as far as release and use)", "std maps and vectors behave as specified"]
BODIES = [[], ["S"], ["Sa"], ["Q", "S", "q"], ["M", "S", "Qa", "q", "m"]]
NEXT_GROUP = dict(entries=["de|<Deserializer as Iterator>::next", "de|Deserializer::from_*", "de|de::from_*"], opaque=["*Loader::*"], max_paths=4000)


def shape(doc):
    """(kinds, positions) of a document's events, or None"""
    evs = parts(doc)[0]
    if evs is None:
        return None
    out = []
    for v in evs.xs:
        if not isinstance(v, Adt) or not isinstance(v.fields.get("0"), Adt) or not isinstance(v.fields.get("1"), X):
            return None
        out.append((v.fields["0"].variant, v.fields["1"].name))
    return out


def kind(tok):
    return ANCHORED[tok[0]][0] if tok[0] in ANCHORED else "Alias" if tok[0] == "*" else PLAIN[tok]


def drive(ck, ld, start, bodies, fault, key):
    """fault: None, (document, position, '!' or '*z')"""
    e = ld.e
    feed, want = [(None, "<")], []
    for n, b in enumerate(bodies):
        feed.append((n, "("))
        for t in b:
            feed.append((n, t))
        feed.append((n, ")"))
    feed.append((None, ">"))
    if fault:
        cut = next(i for i, (n, _) in enumerate(feed) if n == fault[0]) + fault[1] + 1
        feed = feed[:cut] + [(fault[0], fault[2])] + (feed[cut:] if fault[2] != "!" else [])
    toks = [t for _, t in feed]
    label = " ".join(toks)
    inputs = [event(t, i) for i, t in enumerate(toks)]
    if fault and fault[2] == "!":
        inputs += [event("!", len(toks) - 1)] * 8
    state, pos, seen, broken = start, 0, 0, False
    calls = (fault[0] + 1 if fault else len(bodies)) + 3
    for c in range(calls):
        if pos >= len(inputs):
            r = ld.call(state, [event(">", 99)] * 3)
            if r is not None and r[2] > 0:
                ck.obl(False if ld.noevent else None, key + ":past-end", f"stream '{label}': call {c + 1} asks the parser for more after the end of the stream, which it does not support", f"{e.name} {e.span}")
                return
        r = ld.call(state, inputs[pos:] + [None] * 3)
        if r is None:
            return ck.undecided(key, f"{label}: call {c + 1}")
        v, st, used, pp = r
        if v in ("panic", "diverge"):
            ck.obl(None if broken else False, key + ":panic", f"stream '{label}': call {c + 1} panics", f"{e.name} {pp.span}")
            return
        p, ev = pp
        where = f"{e.name} {p.span}"
        pos, state = pos + used, st
        o = opt(v)
        if o is None:
            return ck.undecided(key, f"{label}: call {c + 1} not evaluated")
        if o[0] == "None":
            if broken:
                ck.obl(True, key + ":after-failure", "", where)
                continue
            exp = len(bodies) if bodies else 1
            ck.obl(seen == exp and not fault, key + ":short", f"stream '{label}' ends after {seen} documents", where)
            if seen != exp or fault:
                return
            continue
        doc = o[1]
        err = doc.fields.get("error") if isinstance(doc, Adt) else None
        oe = opt(err) if err is not None else None
        if oe is None:
            return ck.undecided(key, f"{label}: error field not evaluated")
        failing = oe[0] == "Some"
        if broken:
            ck.obl(failing, key + ":phantom", f"stream '{label}': after the failure, call {c + 1} yields another document without an error", where)
            if not failing:
                return
            continue
        if seen >= max(len(bodies), 1):
            ck.obl(False, key + ":extra", f"stream '{label}': call {c + 1} yields a document after the last", where)
            return
        s = shape(doc)
        if s is None:
            return ck.undecided(key, f"{label}: events not evaluated")
        here = [(kind(t), f"mark{i}") for i, (n, t) in enumerate(feed) if n == seen and t not in ("(", ")", "!", "*z")]
        isbad = bool(fault) and fault[0] == seen
        if isbad:
            here = [(kind(t), f"mark{i}") for i, (n, t) in enumerate(feed) if n == seen and t not in ("(", ")") and i < cut]
            ck.obl(failing, key + ":error", f"stream '{label}': document {seen + 1} fails to load but is yielded without an error", where)
        else:
            ck.obl(not failing, key + ":error", f"stream '{label}': document {seen + 1} is yielded with an error", where)
        if not bodies:
            ck.obl(len(s) == 1 and s[0][0] == "Void" and not failing, key + ":empty", f"an empty stream yields a document of {[k for k, _ in s]}", where)
        else:
            ck.obl(s == here, key + ":events", f"stream '{label}': document {seen + 1} holds {[k for k, _ in s]} instead of {[k for k, _ in here]}", where)
        seen += 1
        broken = broken or isbad
    return True


def check(ck):
    RL, T, RP = run.analyse(dict(LOADER_GROUP), dict(NEXT_GROUP), dict(PARSER_GROUP))
    ld = Load(RL)
    ld.noevent = asking_again_panics(RP)
    n = 0
    start = ld.start(RL) if ld.e is not None else None
    if ld.e is None or start is None:
        ck.undecided("loader", ld.why or "initial state not evaluated")
    else:
        ck.use(ld.e)
        for k in range(0, 4):
            for bodies in itertools.product(BODIES[:4] if k == 3 else BODIES, repeat=k):
                if drive(ck, ld, start, bodies, None, "stream"):
                    n += 1
                if k <= 2:
                    for d, b in enumerate(bodies):
                        for i in range(len(b) + 1):
                            for bad in ("!", "*z"):
                                if drive(ck, ld, start, bodies, (d, i, bad), "broken"):
                                    n += 1
        ck.floor("streams", n, 200)
    # the loader takes the input it was given
    ctor = [e for e in RL.entries if e is not ld.e and any("Progress" in (e.ty(t) or "") for t, _ in [(q[0], 0) for q in e.params])]
    for e in ctor:
        if e.error or e.cut:
            ck.undecided("loader:new", "analysis cut")
            continue
        ck.use(e)
        ptr = e.params[0][0]
        x = X("source error")
        ev = Ev(e, {ptr: Progress("Fail", x)}, fns=FNS)
        for f, p, ch in ev.outcomes(("return", "panic")):
            ev.at(ch)
            v = ev.ev(p.val) if p.end == "return" else None
            if not isinstance(v, Adt) or v.variant not in ("Ok", "Err"):
                ck.obl(sure(f, False) if p.end == "panic" else None, "loader:fail", "loading a failed source panics", f"{e.name} {p.span}")
                continue
            ck.obl(sure(f, v.variant == "Err"), "loader:fail", "a failed source is loaded as if it were readable", f"{e.name} {p.span}")
            if v.variant == "Err":
                kx = error_kind(v.fields.get("0"))
                ck.obl(None if kx is None else sure(f, kx == x.name), "loader:fail", f"a failed source fails with {kx}", f"{e.name} {p.span}")
    # the iterator
    its = [e for e in T.entries if e.name.endswith("as Iterator>::next")]
    ck.floor("Iterator for Deserializer", len(its), 1)
    m = 0
    for e in its:
        if e.error or e.cut:
            ck.undecided("next", "analysis cut")
            continue
        ck.use(e)
        progs = progress_field(e)
        selfs = [t for t, k in e.terms.items() if k[0] == "d" and k[1] == e.params[0][0]]
        isrec = lambda c: c.last == "next" and (e.ty(c.ret) or "").startswith("Option<Deserializer")
        fns = {"from": lambda ev, av, at, t: av[0] if av else None, "call:from": lambda ev, av, args, c: av[0] if av else None}
        for f in {c.last for p in e.paths for c in p.calls() if is_new(e)(c) or is_next(e)(c) or isrec(c)}:
            fns["havoc:" + f] = lambda ev, old, c, t: old
        sc = Script(e, [is_new(e), is_next(e), isrec], fns=fns)

        def prog(v):
            while isinstance(v, Adt) and v.name != "Progress" and len(v.fields) == 1:
                v = next(iter(v.fields.values()))
            return v if isinstance(v, Adt) and v.name == "Progress" else None

        def payload_id(v):
            v = v.fields.get("0") if v is not None else None
            if isinstance(v, Adt) and v.name == "Document":
                v = v.fields.get("id")
            if isinstance(v, Adt) and v.name == "Loader":
                v = v.fields.get("id")
            if isinstance(v, Adt) and v.name == "ErrorImpl":
                x = v.fields.get("0")
                return v.variant + (":" + x.name if isinstance(x, X) else "") if v.variant != "Shared" else (x.name if isinstance(x, X) else None)
            return v.name if isinstance(v, X) else repr(v.s) if isinstance(v, S) else None

        def scenario(label, start, values, item, after):
            """item: None or (progress variant, payload id) or 'rec'; after: set of acceptable (variant, id) of the iterator itself"""
            nonlocal m
            env = {t: start for t in progs}
            env.update({t: Adt("Deserializer", None, {"progress": start}) for t in selfs})
            m += 1
            done = 0
            for f, p, ev in sc.outcomes(env, values):
                where = f"{e.name} {p.span}"
                if p.end != "return":
                    ck.obl(sure(f, False) if p.end == "panic" else None, "next:panic", f"{label}: panics", where)
                    continue
                v = ev.ev(p.val)
                rec = sc.ran(p, 2) > 0
                o = opt(v) if v is not None else None
                out = prog(ev.ev(p.out[0])) if 0 in p.out else start
                if rec:
                    # continues with the loaded stream: decided by the scenarios of an iterated stream
                    done += 1
                    ck.obl(sure(f, sc.ran(p, 1) == 0), "next:lost", f"{label}: a document is taken before iteration continues", where)
                    ck.obl(None if out is None else sure(f, item == "stream" and (out.variant, payload_id(out)) == ("Iterable", "loader")), "next:loaded", f"{label}: iteration continues from {out}", where)
                    ck.obl(None if v is None else sure(f, v == values[2][0]), "next:loaded", f"{label}: yields {v}", where)
                    continue
                if o is None:
                    ck.undecided("next", label)
                    continue
                done += 1
                if item == "stream":
                    want = Some(Adt("Deserializer", None, {})) if values[1][0] != NONE else NONE
                    item2 = ("Document", "d") if values[1][0] != NONE else None
                else:
                    item2 = item
                if item2 is None:
                    ck.obl(sure(f, o[0] == "None"), "next:extra", f"{label}: yields an item", where)
                elif o[0] == "None":
                    ck.obl(sure(f, False), "next:missing", f"{label}: yields nothing", where)
                else:
                    g = prog(o[1])
                    got = (g.variant, payload_id(g)) if g is not None else None
                    ck.obl(None if got is None or got[1] is None else sure(f, got == item2), "next:item", f"{label}: yields {got} instead of {item2}", where)
                if after is not None:
                    got = (out.variant, payload_id(out)) if out is not None else None
                    ck.obl(None if got is None or got[1] is None else sure(f, got in after), "next:state", f"{label}: leaves the iterator at {got}", where)
            if not done:
                ck.undecided("next", label + ": no path evaluated")

        docs = documents(ld, start)
        doc = docs[0]
        Lo = X("loader")
        for dx in docs:
            for dy in docs:
                scenario("a stream with another document", Progress("Iterable", Lo), [[], [Some(dx), Some(dy)], []], ("Document", "d"), {("Iterable", "loader")})
                dy = Adt(dy.name, None, dict(dy.fields, id=X("later")))
                scenario("a stream with another document", Progress("Iterable", Lo), [[], [Some(dx), Some(dy)], []], ("Document", "d"), {("Iterable", "loader")})
        scenario("a stream without further documents", Progress("Iterable", Lo), [[], [NONE], []], None, {("Iterable", "loader")})
        scenario("an item of an iterated stream", Progress("Document", doc), [[], [], []], None, {("Document", "d")})
        scenario("a failed source", Progress("Fail", X("fail")), [[], [], []], ("Fail", "fail"), {("Fail", "fail")})
        for k in ("Str", "Slice", "Read"):
            bad = Adt("Error", None, {"0": Adt("ErrorImpl", "Io", {"0": X("io")})})
            shared = Adt("Error", None, {"0": Adt("ErrorImpl", "Shared", {"0": X("old")})})
            scenario(f"{k} input that cannot be read", Progress(k, X("input")), [[Err(bad)], [], []], ("Fail", "Io:io"), {("Fail", "Io:io")})
            scenario(f"{k} input that failed before", Progress(k, X("input")), [[Err(shared)], [], []], ("Fail", "old"), {("Fail", "old")})
            for nx in (NONE, Some(doc)):
                scenario(f"{k} input", Progress(k, X("input")), [[Ok(Lo)], [nx], [Some(X("rest"))]], "stream", {("Iterable", "loader")})
            for f, p, ev in sc.outcomes({t: Progress(k, X("input")) for t in progs}, [[Ok(Lo)], [NONE], [NONE]]):
                for c in p.calls():
                    if is_new(e)(c):
                        got = ev.ev(c.args[0])
                        ck.obl(None if got is None else sure(f, got == Progress(k, X("input"))), "next:input", f"a {k} input is loaded from {got}", f"{e.name} {p.span}")
    ck.floor("iterator situations", m, 10)
    # constructors
    k = 0
    for e in T.entries:
        if e in its or e.error or e.cut:
            continue
        want = {"from_str": "Str", "from_slice": "Slice", "from_reader": "Read"}.get(e.name.rsplit("::", 1)[-1])
        if not want:
            continue
        ck.use(e)
        k += 1
        x = Progress(want, X("input"))
        for p in e.paths:
            if p.end != "return":
                continue
            ev = Ev(e, {e.params[0][0]: X("input")}, fns=FNS)
            where = f"{e.name} {p.span}"
            if e.name.startswith("Deserializer"):
                v = ev.ev(p.val)
                g = prog_of(v)
                ck.obl(None if g is None else g == x, "source", f"{e.name} makes a deserializer over {g}", where)
            else:
                rd = [c for c in p.calls() if c.last == "deserialize"]
                ck.obl(None if len(rd) != 1 else p.val == rd[0].ret or None, "source", f"{e.name} does not return what was deserialized", where)
                for c in rd:
                    g = prog_of(ev.ev(c.args[0]))
                    ck.obl(None if g is None else g == x, "source", f"{e.name} reads from {g}", where)
    ck.floor("constructors", k, 3)


def documents(ld, start):
    """a good, a failed empty and a failed non-empty document as the loader builds them, each marked d"""
    out = []
    for toks in ("< ( S )", "< !", "< ( S !"):
        r = ld.call(start, [event(t, i) for i, t in enumerate(toks.split())]) if ld.e is not None and start is not None else None
        o = opt(r[0]) if r and isinstance(r[0], Adt) else None
        if o and o[0] == "Some" and isinstance(o[1], Adt):
            out.append(Adt(o[1].name, None, dict(o[1].fields, id=X("d"))))
    return out or [Adt("Document", None, {"id": X("d")})]


def asking_again_panics(R):
    """the conversion of the C parser's empty event, which it produces after the stream end, has no result"""
    se = source_entry(R)
    if se is None or se.cut or se.error:
        return False
    seen = False
    for p in se.paths:
        for t, dom in p.facts.items():
            k = se.terms[t]
            if k[0] == "D" and se.terms[k[1]][0] == "f" and se.terms[k[1]][3] == "type_":
                only = all(str(x).endswith("NO_EVENT") for x in dom.get("in", ["?"])) or "not" in dom
                if only and p.end == "panic":
                    seen = True
                elif p.end == "return" and ("in" in dom and any(str(x).endswith("NO_EVENT") for x in dom["in"]) or "in" not in dom and not any(str(x).endswith("NO_EVENT") for x in dom.get("not", []))):
                    k2 = se.terms[p.val]
                    if not (k2[0] == "A" and k2[2] == "Err"):
                        return False
    return seen


def prog_of(v):
    while isinstance(v, Adt) and v.name != "Progress" and len(v.fields) == 1:
        v = next(iter(v.fields.values()))
    if isinstance(v, Adt) and v.name == "Progress":
        x = v.fields.get("0")
        while isinstance(x, Adt) and len(x.fields) == 1:
            x = next(iter(x.fields.values()))
        return Adt("Progress", v.variant, {"0": x})
    return None
