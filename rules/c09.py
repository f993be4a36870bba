import itertools
from absval import *
from model import *
from destream import *
from lib_err import errkinds
from loadsim import *
import run

WHAT = ("Every method of the top-level deserializer is evaluated for every combination of input kind, loader success, presence of a first and a second document, parse error in the document and outcome of the nested read: success requires exactly "
        "the one combination the property names, and each failing combination yields an error of its own kind.  Where events run out, every nested read returns the document's parse error, and reads of a missing document end with the end-of-stream error.")
ASSUMES = ["the loader is taken at its interface (C08 and C10 decide it)"]
EMPTY_OK = {"any", "unit", "unit_struct", "option", "seq", "tuple", "tuple_struct", "map", "struct", "ignored_any", "newtype_struct", "bytes", "byte_buf"}


def check(ck):
    R, T, O = run.analyse(dict(DE_GROUP), dict(TOP_GROUP), dict(entries=["de|*invalid_type"], max_paths=4000))
    D, doc = DE(ck, R), Doc(T)
    if D.name is None:
        return
    n = combos = 0
    for e in T.entries:
        if " as Deserializer>" not in e.name:
            continue
        m = e.name.rsplit("::", 1)[-1]
        if e.error or e.cut:
            ck.undecided(m, "analysis cut")
            continue
        ck.use(e)
        isread = lambda c: any(D.states(e, a) for a in c.args)
        sc = Script(e, [is_new(e), is_next(e), isread])
        if not any(i == 2 for plan in sc.plan for _, i, _ in plan):
            # nothing is read: only errors may come out
            for p in e.paths:
                if p.end == "return":
                    k = e.terms[p.val]
                    ck.obl(k[0] == "A" and k[2] == "Err" or None, f"{m}:no-read", "a value is returned without reading the document")
            continue
        n += 1
        progs = progress_field(e)
        if not progs or doc.err is None:
            ck.undecided(m, "progress or document error not recognised")
            continue

        def scenario(label, prog, values, allowed, okval=None):
            nonlocal combos
            rs = sc.outcomes({t: prog for t in progs}, values)
            combos += 1
            good = 0
            for f, p, ev in rs:
                v = ev.ev(p.val) if p.end == "return" else None
                where = f"{e.name} {p.span}"
                if p.end != "return":
                    ck.obl(sure(f, False) if p.end == "panic" else None, f"{m}:panic", f"{label}: panics", where)
                    continue
                if not isinstance(v, Adt) or v.variant not in ("Ok", "Err"):
                    ck.undecided(f"{m}:{label}", f"result {v} not evaluated")
                    continue
                good += 1
                if v.variant == "Ok":
                    ck.obl(sure(f, okval is not None), f"{m}:accepted", f"{label}: a value is returned", where)
                    if okval is not None:
                        x = v.fields.get("0")
                        ck.obl(None if x is None else sure(f, x == okval), f"{m}:value", f"{label}: the value returned is {x}", where)
                else:
                    k = error_kind(v.fields.get("0"))
                    if okval is not None:
                        ck.obl(sure(f, False), f"{m}:refused", f"{label}: fails with {k}", where)
                    else:
                        ck.obl(None if k is None else sure(f, k in allowed), f"{m}:error", f"{label}: fails with {k} instead of {'/'.join(sorted(allowed))}", where)
            if not good:
                ck.undecided(f"{m}:{label}", "no path evaluated")

        res = lambda ok: Adt("Result", "Ok", {"0": X("value")}) if ok else Adt("Result", "Err", {"0": X("read error")})
        scenario("an iterated stream", Progress("Iterable", X("loader")), [[], [], [res(True)]], {"MoreThanOneDocument"})
        scenario("a failed source", Progress("Fail", X("source error")), [[Adt("Result", "Err", {"0": X("source error")})], [], [res(True)]], {"source error"})
        for perr, ok in itertools.product((None, "parse error"), (True, False)):
            al = ({"parse error"} if perr else set()) | (set() if ok else {"read error"})
            scenario(f"a document item ({perr or 'no error'}, read {'ok' if ok else 'fails'})", Progress("Document", doc.make("d", perr)), [[], [], [res(ok)]], al, None if al else X("value"))
        for kind in ("Str", "Slice", "Read"):
            scenario(f"{kind} input that cannot be loaded", Progress(kind, X("input")), [[Adt("Result", "Err", {"0": X("load error")})], [], [res(True)]], {"load error"})
            L0 = Adt("Result", "Ok", {"0": X("loader")})
            scenario(f"{kind} input without documents", Progress(kind, X("input")), [[L0], [NONE], [res(True)]], {"EndOfStream"})
            for perr, ok, more in itertools.product((None, "parse error"), (True, False), (None, "ok", "error")):
                al = ({"parse error"} if perr else set()) | (set() if ok else {"read error"}) | ({"MoreThanOneDocument"} if more else set())
                nxt = Some(doc.make("d2", "parse error 2" if more == "error" else None)) if more else NONE
                if more == "error":
                    al.add("parse error 2")
                scenario(f"{kind} input ({perr or 'no error'}, read {'ok' if ok else 'fails'}, {'second document' if more else 'one document'})", Progress(kind, X("input")), [[L0], [Some(doc.make("d", perr)), nxt], [res(ok)]], al, None if al else X("value"))
    ck.floor("top-level reads", n, 25)
    ck.floor("combinations", combos, 500)
    # events run out inside a document
    m2 = 0
    for e in D.entries("Deserializer", "SeqAccess", "MapAccess"):
        if e.error or e.cut or e.name.startswith("<Deserializer as "):
            continue
        ck.use(e)
        n_ = e.name.rsplit("::", 1)[-1]
        for perr in (None, "parse error"):
            def get(ev, av, at, t):
                return NONE if "Event" in (e.ty(t) or "") else None
            env = {t: (Some(X(perr)) if perr else NONE) for t, k in e.terms.items() if k[0] == "f" and k[3] == doc.err and (e.ty(k[1]) or "").startswith("Document")}
            env.update({t: FALSE for t, k in e.terms.items() if k[0] == "f" and e.ty(t) == "bool" and "Access" in (e.ty(k[1]) or "")})
            ev = Ev(e, env, fns=dict(FNS, get=get))
            for f, p, ch in ev.outcomes(("return", "panic")):
                ev.at(ch)
                if not any(e.terms[t][0] == "D" and e.terms[e.terms[t][1]][0] == "a" and base(e.terms[e.terms[t][1]][1])[1] == "get" for t in p.facts):
                    continue
                v = ev.ev(p.val) if p.end == "return" else None
                m2 += 1
                if p.end == "panic" or not isinstance(v, Adt) or v.variant is None:
                    ck.undecided(f"{n_}:exhausted", str(p.val)[:60])
                    continue
                want = {perr or "EndOfStream"}
                k = error_kind(v.fields.get("0")) if v.variant == "Err" else "a value"
                ck.obl(None if k is None else sure(f, k in want), f"{n_}:exhausted", f"where a document ends early ({perr or 'no error'}) the result is {k}", f"{e.name} {p.span}")
    ck.floor("early ends", m2, 30)
    # nothing at all
    for e in D.entries("Deserializer"):
        if e.error or e.cut or e.name.startswith("<Deserializer as "):
            continue
        n_ = e.name.rsplit("deserialize_", 1)[-1]

        def get(ev, av, at, t):
            return Some(Adt("tuple", None, {"0": Adt("Event", "Void"), "1": X("mark")})) if (e.ty(t) or "").startswith("Option<") and "Event" in e.ty(t) else None
        env = {t: NONE for t in e.terms if D.enum and D.own(e, t, D.enum)}
        ev = Ev(e, env, fns=dict(FNS, get=get))
        for f, p, ch in ev.outcomes(("return", "panic", "back")):
            ev.at(ch)
            vis = [c for c in p.calls() if c.last.startswith("visit_")]
            if n_ in EMPTY_OK:
                continue
            ck.obl(sure(f, not vis), f"{n_}:nothing", f"an input without a document is given to {vis[0].last if vis else ''} by a {n_} read", f"{e.name} {p.span}")
    # reported as the end of the stream
    for e in O.entries:
        if e.cut or e.error or e.name != "de::invalid_type":
            continue
        ck.use(e)
        env = {}
        ptr = e.params[0][0]
        for t, k in e.terms.items():
            if k[0] == "d" and k[1] == ptr:
                env[t] = Adt("Event", "Void")
        ev = Ev(e, env)
        for f, p, ch in ev.outcomes(("return", "panic")):
            ev.at(ch)
            k = error_kind(ev.ev(p.val)) if p.end == "return" else "panic"
            ck.obl(None if k is None else sure(f, k == "EndOfStream"), "void:error", f"a missing document is reported as {k}", f"{e.name} {p.span}")
