from absval import *
from model import *
from sim import *
from destate import *
from lib_err import errkinds
import run

WHAT = ("Every function that hands a sequence or mapping to a visitor is evaluated for containers of up to three entries of which the visitor takes none, some or all, with the draining loop driven to its end: all taken must give the visitor's value (and, in text, leave the reader behind the closing event), "
        "anything left must give an error made by invalid_length.  The element accessors are evaluated for every next event or element: one is delivered and counted exactly once, the end is reported exactly at the end, and nothing is taken from the wrong end.")
ASSUMES = ["the visitor takes elements only through the accessor it is given", "std iterators behave as specified"]
SRC = ("next_element", "next_element_seed", "next_entry", "next_entry_seed", "next_key", "next_key_seed")
VALUE_GROUP = dict(entries=["value::de|*", "value::tagged|*"], max_paths=6000)


def leftover(v, n):
    """drop the first n elements of every list inside v"""
    if isinstance(v, L):
        return L(v.xs[n:])
    if isinstance(v, Adt):
        return Adt(v.name, v.variant, {k: leftover(x, n) for k, x in v.fields.items()})
    return v


def pairs(n):
    return [Adt("tuple", None, {"0": X(f"k{i}"), "1": X(f"v{i}")}) for i in range(n)]


def ev_of(kind):
    if kind == "S":
        return Adt("Event", "Scalar", {"0": X("scalar")})
    return Adt("Event", {"[": "SequenceStart", "]": "SequenceEnd", "{": "MappingStart", "}": "MappingEnd"}[kind], {"0": Adt("start", None, {"tag": NONE, "anchor": NONE})})


def made_by(p, e, t):
    """names of the calls an error value comes from"""
    out = set()
    for x in e.subterms(t):
        c = e.call_of(x)
        if c is not None:
            out.add(c.last)
    return out


def text(ck, D):
    """containers read from events"""
    n = 0
    for e in D.entries("Deserializer", "VariantAccess"):
        if e.error or e.cut or e.name.startswith("<Deserializer as "):
            continue
        for what in ("visit_seq", "visit_map"):
            ps = [c for p in e.paths for c in p.calls() if c.last == what]
            if not ps:
                continue
            ck.use(e)
            short = e.name.rsplit("::", 1)[-1]
            # the counting field of the accessor handed over
            count = set()
            for c in ps:
                for x in e.subterms(c.args[1]):
                    kx = e.terms[x]
                    if kx[0] == "A" and "Access" in (e.ty(x) or "") and kx[4]:
                        count |= {(nm, y) for nm, y in zip(kx[4], kx[3]) if e.ty(y) == "usize"}
            for taken in range(0, 4):
                for left in range(0, 4):
                    w = 1 if what == "visit_seq" else 2
                    evs = ["[" if w == 1 else "{"] + ["S"] * (w * (taken + left)) + ["]" if w == 1 else "}"] + ["S"] * 3
                    doc = L([Adt("tuple", None, {"0": ev_of(k), "1": X(f"mark{i}")}) for i, k in enumerate(evs)])
                    end = 1 + w * (taken + left)
                    r = drive_text(e, D, doc, taken, left, w)
                    n += 1
                    lab = f"{what[6:]} of {taken + left} of which {taken} are read"
                    if r is None:
                        ck.undecided(f"{short}:{what}", lab)
                        continue
                    p, ev, used = r
                    where = f"{e.name} {p.span}"
                    if p.end in ("panic", "diverge"):
                        ck.obl(False, f"{short}:panic", f"{lab}: panics", where)
                        continue
                    v = ev.ev(p.val)
                    if not isinstance(v, Adt) or v.variant not in ("Ok", "Err"):
                        ck.undecided(f"{short}:{what}", lab)
                        continue
                    if left == 0:
                        ck.obl(v.variant == "Ok" and (v.fields.get("0") == X("value") or None), f"{short}:complete", f"{lab}: gives {v.variant}", where)
                        pos = [ev.ev(t) for t in positions(e, D, p)]
                        if len(pos) == 1 and isinstance(pos[0], I) and pos[0].const is not None:
                            ck.obl(pos[0].const == end + 1, f"{short}:position", f"{lab}: leaves the reader at event {pos[0].const} of {end + 1}", where)
                        else:
                            if " as Deserializer>" in e.name:
                                ck.undecided(f"{short}:position", lab)
                    else:
                        ck.obl(v.variant == "Err", f"{short}:leftover", f"{lab}: the rest is discarded", where)
                        if v.variant == "Err":
                            by = made_by(p, e, p.val)
                            ck.obl("invalid_length" in by or (False if by & {"invalid_type", "invalid_value", "custom", "missing_field"} else None), f"{short}:kind", f"{lab}: the error is not an invalid-length error but {sorted(by)}", where)
    return n


def positions(e, D, p):
    """final value of the position shared through the state"""
    out = set()
    for root, t in p.out.items():
        for st in D.states(e, t) + [x for x in e.subterms(t) if e.terms[x][0] == "A" and e.ty(x) == D.name]:
            if e.terms[st][0] == "A":
                x = e.fields(st).get(D.pos)
                if x is not None:
                    out.add(e.terms[x][2] if e.terms[x][0] == "r" else x)
    return out


def gives_nothing(e, D, t):
    """whether an accessor made with constant flags ends at once, whatever comes next (judged on its own methods)"""
    for x in e.subterms(t):
        k = e.terms[x]
        if k[0] != "A" or "Access" not in (e.ty(x) or "") or not k[4]:
            continue
        flags = {}
        for nm, y in zip(k[4], k[3]):
            while e.terms[y][0] == "y" and e.terms[y][1] == "loop":
                y = e.terms[y][3]       # as it is when the draining begins
            if e.ty(y) == "bool" and e.terms[y][0] == "i":
                flags[nm] = I(int(e.terms[y][1]), int(e.terms[y][1]))
        ty = (e.ty(x) or "").partition("<")[0]
        key = (id(D), ty, tuple(sorted((a, b.lo) for a, b in flags.items())))
        if not flags:
            return False
        if key not in DEAD:
            DEAD[key] = all_end(D, ty, flags)
        return DEAD[key]
    return False


DEAD = {}


def all_end(D, ty, flags):
    seen = False
    for a in D.entries("SeqAccess", "MapAccess"):
        if a.name.rsplit("::", 1)[-1] not in ("next_element_seed", "next_key_seed") or a.error or a.cut or (a.name.lstrip("<").partition("<")[0].partition(" ")[0]) != ty:
            continue
        env = {t: flags[k[3]] for t, k in a.terms.items() if k[0] == "f" and k[3] in flags and a.ty(t) == "bool" and "Access" in (a.ty(k[1]) or "")}
        if not env:
            return False
        ev = Ev(a, env, fns=dict(FNS))
        for f, p, ch in ev.outcomes(("return", "panic")):
            ev.at(ch)
            seen = True
            if p.end != "return" or ev.ev(p.val) != Adt("Result", "Ok", {"0": NONE}):
                return False
    return seen


def drive_text(e, D, doc, taken, left, w):
    base_env = {}
    for t, k in e.terms.items():
        if k[0] == "f" and e.ty(t) and "Vec<(" in e.ty(t) and "Event" in e.ty(t):
            base_env[t] = doc
        if k[0] == "d" and e.terms[k[1]][0] == "f" and e.terms[k[1]][3] == D.pos and D.own(e, k[1], D.pos):
            base_env[t] = I(0, 0)
        if k[0] == "f" and k[3] == D.budget and D.own(e, t, D.budget):
            base_env[t] = I(100, 100)
        if D.enum and D.own(e, t, D.enum):
            base_env[t] = NONE
    access = [("A", t) for t, k in e.terms.items() if k[0] == "A" and "Access" in (e.ty(t) or "")]
    counts = set()
    for _, t in access:
        for nm, x in zip(e.terms[t][4] or [], e.terms[t][3]):
            if e.ty(x) in ("usize", "u64", "u32"):
                counts.add(x)
    state = {"n": 0}
    fns = {}

    def tag(t, role):
        """which quantity a havocked term stands for: 'count' or 'pos', judged from the term it replaces"""
        seen = 0
        while seen < 30:
            k = e.terms.get(t)
            if k is None:
                return None
            if k[0] == "y" and k[1] in ("havoc", "loop"):
                t = k[3]
            elif t in base_env and isinstance(base_env[t], I) and base_env[t].const == 0:
                return "pos"
            elif k[0] == "b" and k[1] in ("Add", "Sub"):
                t = k[2]
            elif k[0] == "i":
                return "count" if t in counts else None
            else:
                return None
            seen += 1

    def shift(nc, np):
        def h(ev, old, c, t):
            if not isinstance(old, I) or old.const is None:
                return old
            if e.ty(t) == "bool":
                return None
            what = tag(t, None)
            d = {"count": nc, "pos": np}.get(what)
            return I(old.const + d, old.const + d) if d is not None else None
        return h
    fns["havoc:visit_seq"] = fns["havoc:visit_map"] = shift(taken, taken * w)

    def step(ev, old, c, t):
        ok = opt(okval(ev.ev(c.ret)))
        if ok is None:
            return None
        return shift(1, 1 if c.last.startswith("next_key") and w == 2 else w)(ev, old, c, t) if ok[0] == "Some" else old
    for s in SRC:
        fns["havoc:" + s] = step
    for s in ("next_value", "next_value_seed"):
        fns["havoc:" + s] = shift(0, 1)
    for s in ("visit_seq", "visit_map"):
        fns["call:" + s] = lambda ev, av, args, c: Adt("Result", "Ok", {"0": X("value")})
    for s in ("next_value", "next_value_seed"):
        fns["call:" + s] = lambda ev, av, args, c: Adt("Result", "Ok", {"0": X("ignored")})
    issrc = lambda c: c.last in SRC
    sim = Sim(e, issrc, fns)
    for s in SRC:
        sim.fns["havoc:" + s] = step
    srcs = {c.uid: c for p in e.paths for c in p.all_calls() if issrc(c)}
    dead = {u for u, c in srcs.items() if c.args and gives_nothing(e, D, c.args[0])}
    if dead and len(dead) < len(srcs):
        return None
    feed = [Adt("Result", "Ok", {"0": Some(X("e"))})] * (0 if dead else left) + [Adt("Result", "Ok", {"0": NONE})] * 3
    return sim.run(base_env, feed)


def okval(v):
    return v.fields.get("0") if isinstance(v, Adt) and v.variant == "Ok" else None


def values(ck, R):
    """containers read from a Value"""
    n = 0
    for e in R.entries:
        if e.error or e.cut or not e.name.startswith("<"):
            continue
        for what in ("visit_seq", "visit_map"):
            ps = [c for p in e.paths for c in p.calls() if c.last == what and not all(e.terms[a][:2] == ["y", "param"] for a in c.args[1:])]
            if not ps:
                continue
            ck.use(e)
            short = e.name
            for total in range(0, 4):
                for taken in range(0, total + 1):
                    n += value_case(ck, e, short, what, total, taken)
    return n


def roots(e, seq):
    """environment: every node of the input is a container of the given kind"""
    env = {}
    val = Adt("Value", "Sequence", {"0": seq}) if isinstance(seq, L) else Adt("Value", "Mapping", {"0": seq.inner})
    lst = seq if isinstance(seq, L) else seq.inner
    for t, k in e.terms.items():
        if k[0] not in ("y", "d", "f") or k[0] == "y" and k[1] != "param":
            continue
        ty = (e.ty(t) or "").replace("&mut ", "").replace("&", "")
        if any(e.terms[x][0] == "y" and e.terms[x][1] != "param" for x in e.subterms(t)):
            continue
        if k[0] == "f" and any(x in env and x != t for x in e.subterms(t)):
            continue
        if ty == "Value":
            env[t] = val
        elif ty == "Option<Value>":
            env[t] = Some(val)
        elif ty in ("IntoIter<Value>", "Iter<Value>", "IntoIter", "Iter") or ty.startswith("IntoIter<") or ty.startswith("Iter<"):
            env[t] = lst
        elif ty.startswith("Option<IntoIter") or ty.startswith("Option<Iter"):
            env[t] = Some(lst)
    for q in e.params:
        t = q[0]
        if t in env:
            continue
        fs = {e.terms[x][3]: env[x] for x in env if e.terms[x][0] == "f" and e.terms[x][1] == t and not e.terms[x][2]}
        if fs:
            env[t] = Adt((e.ty(t) or "").partition("<")[0], None, fs)
    return env


class Mp:
    def __init__(self, l):
        self.inner = l


def value_case(ck, e, short, what, total, taken):
    l = L(pairs(total)) if what == "visit_map" else L([X(f"e{i}") for i in range(total)])
    env = roots(e, l if what == "visit_seq" else Mp(l))
    same = lambda ev, av, at, t: av[0] if av and isinstance(av[0], (L, Adt)) else None
    fns = dict(FNS)
    for s in ("into_iter", "iter", "into", "by_ref", "as_slice"):
        fns[s] = same
        fns["call:" + s] = lambda ev, av, args, c: av[0] if av and isinstance(av[0], (L, Adt)) else None

    def size_hint(ev, av, at, t):
        if av and isinstance(av[0], L):
            k = I(len(av[0].xs), len(av[0].xs))
            return Adt("tuple", None, {"0": k, "1": Some(k)})
    fns["size_hint"] = size_hint
    fns["call:size_hint"] = as_call(size_hint)
    nxt = lambda ev, av, args, c: _first(av)
    fns["call:next"] = nxt
    fns["havoc:next"] = lambda ev, old, c, t: leftover(old, 1)
    fns["call:count"] = as_call(FNS["len"])
    fns["unwrap"] = lambda ev, av, at, t: av[0].fields.get("0") if av and isinstance(av[0], Adt) and av[0].variant == "Some" else None
    for s in ("visit_seq", "visit_map"):
        fns["havoc:" + s] = lambda ev, old, c, t: leftover(old, taken)
        fns["call:" + s] = lambda ev, av, args, c: Adt("Result", "Ok", {"0": X("value")})
    ev = Ev(e, env, fns=fns)
    lab = f"a {what[6:]} of {total} of which {taken} are read"
    got = 0
    for f, p, ch in ev.outcomes(("return", "panic")):
        ev.at(ch)
        if not any(c.last == what for c in p.calls()):
            continue
        where = f"{e.name} {p.span}"
        if p.end != "return":
            ck.obl(sure(f, False) if f == "yes" else None, f"{short}:panic", f"{lab}: panics", where)
            continue
        v = ev.ev(p.val)
        if not isinstance(v, Adt) or v.variant not in ("Ok", "Err"):
            ck.undecided(f"{short}:{what}", lab)
            continue
        got += 1
        if taken == total:
            ck.obl(sure(f, v.variant == "Ok" and v.fields.get("0") == X("value")), f"{short}:complete", f"{lab}: gives {v}", where)
        else:
            ck.obl(sure(f, v.variant == "Err"), f"{short}:leftover", f"{lab}: the rest is discarded", where)
            if v.variant == "Err":
                by = made_by(p, e, p.val)
                ck.obl("invalid_length" in by or (sure(f, False) if by & {"invalid_type", "invalid_value", "custom"} else None), f"{short}:kind", f"{lab}: the error comes from {sorted(by)}", where)
    return 1 if got else 0


def _first(av):
    if av and isinstance(av[0], L):
        return Some(av[0].xs[0]) if av[0].xs else NONE


def elements(ck, D):
    """one element, key or value of a container read from events"""
    n = 0
    for e in D.entries("SeqAccess", "MapAccess"):
        m = e.name.rsplit("::", 1)[-1]
        if e.error or e.cut or m not in ("next_element_seed", "next_key_seed", "next_value_seed"):
            continue
        ck.use(e)
        counts = [t for t, k in e.terms.items() if k[0] == "f" and e.ty(t) in ("usize", "u32", "u64") and "Access" in (e.ty(k[1]) or "") and not any(e.terms[x][0] == "y" and e.terms[x][1] != "param" for x in e.subterms(t))]
        bools = [t for t, k in e.terms.items() if k[0] == "f" and e.ty(t) == "bool" and "Access" in (e.ty(k[1]) or "")]
        pos = [t for t, k in e.terms.items() if k[0] == "d" and e.terms[k[1]][0] == "f" and e.terms[k[1]][3] == D.pos]
        keys = [t for t, k in e.terms.items() if k[0] == "f" and (e.ty(t) or "").startswith("Option<&") and "Access" in (e.ty(k[1]) or "")]
        closing = {"next_element_seed": "]", "next_key_seed": "}"}.get(m)
        for kind in ("S", "[", "{", "]" if closing != "}" else "}"):
            def get(ev, av, at, t):
                if "Event" not in (e.ty(t) or ""):
                    return None
                x = Adt("tuple", None, {"0": ev_of(kind), "1": X("mark")})
                return Some(x) if e.ty(t).startswith("Option") else x

            def length(ev, av, at, t):
                return I(100, 100) if any("Event" in (e.ty(x) or "") for x in e.subterms(at[0])) else FNS["len"](ev, av, at, t)
            for okres, prev in ((True, NONE), (False, NONE), (True, Some(X("previous key")))):
                res = Adt("Result", "Ok", {"0": X("element")}) if okres else Adt("Result", "Err", {"0": X("read error")})
                env = {t: I(2, 2) for t in counts}
                env.update({t: FALSE for t in bools})
                env.update({t: I(5, 5) for t in pos})
                env.update({t: prev for t in keys})
                fns = dict(FNS, get=get, index=get, len=length)
                fns["call:deserialize"] = lambda ev, av, args, c: res
                fns["havoc:deserialize"] = lambda ev, old, c, t: old
                ev = Ev(e, env, fns=fns)
                lab = f"{m} at {ev_of(kind).variant}"
                for f, p, ch in ev.outcomes(("return", "panic")):
                    ev.at(ch)
                    where = f"{e.name} {p.span}"
                    reads = [c for c in p.calls() if c.last == "deserialize"]
                    if p.end != "return":
                        if "overflow" not in str(p.val):
                            ck.obl(sure(f, False) if f == "yes" else None, f"{m}:panic", f"{lab}: panics", where)
                        continue
                    v = ev.ev(p.val)
                    n += 1
                    at_end = closing is not None and kind == closing
                    if not isinstance(v, Adt) or v.variant is None:
                        ck.undecided(m, lab)
                        continue
                    if at_end:
                        ck.obl(sure(f, v == Adt("Result", "Ok", {"0": NONE})), f"{m}:end", f"{lab}: gives {v}", where)
                        ck.obl(sure(f, not reads), f"{m}:end", f"{lab}: the closing event is read as an element", where)
                        cnt = 0
                    else:
                        ck.obl(sure(f, len(reads) == 1), f"{m}:reads", f"{lab}: reads {len(reads)} nodes", where)
                        want = (Adt("Result", "Ok", {"0": X("element") if m == "next_value_seed" else Some(X("element"))}) if okres else res)
                        ck.obl(None if v.variant == "Ok" and v.fields.get("0") is None else sure(f, v.variant == want.variant and (v.variant == "Err" or v == want)), f"{m}:delivers", f"{lab}: gives {v}", where)
                        cnt = 0 if m == "next_value_seed" else 1
                    if okres and 0 in p.out:
                        for nm in {e.terms[q][3] for q in counts}:
                            t = p.out[0]
                            y = e.fields(t).get(nm) if e.terms[t][0] == "A" else None
                            w = ev.ev(y) if y is not None else I(2, 2) if e.terms[t][0] == "d" else None
                            ck.obl(None if not isinstance(w, I) or w.const is None else sure(f, w.const == 2 + cnt), f"{m}:count", f"{lab}: counts {w.const - 2 if isinstance(w, I) and w.const is not None else w}", where)
    return n


def value_elements(ck, R):
    """one element, key or value of a container read from a Value"""
    n = 0
    for e in R.entries:
        m = e.name.rsplit("::", 1)[-1]
        if e.error or e.cut or m not in ("next_element_seed", "next_key_seed", "next_value_seed"):
            continue
        ck.use(e)
        for total in range(0, 3):
            ismap = m != "next_element_seed"
            l = L(pairs(total)) if ismap else L([X(f"e{i}") for i in range(total)])
            env = roots(e, Mp(l) if ismap else l)
            held = [t for t in env if (e.ty(t) or "").startswith("Option<") and "Value" in e.ty(t) and "Iter" not in e.ty(t)]
            for t in held:
                env[t] = Some(X("held"))
            selfs = [t for t, k in e.terms.items() if k[0] == "d" and k[1] == e.params[0][0]]
            for t in selfs:
                fs = {e.terms[x][3]: env[x] for x in env if e.terms[x][0] == "f" and e.terms[x][1] == t and not e.terms[x][2]}
                if fs:
                    env[t] = Adt("accessor", None, fs)
            fns = dict(FNS)
            for s in ("into_iter", "iter", "by_ref", "as_mut"):
                fns[s] = lambda ev, av, at, t: av[0] if av else None
            back = lambda av: Some(av[0].xs[-1]) if av and isinstance(av[0], L) and av[0].xs else NONE if av and isinstance(av[0], L) else None
            fns["call:next"] = lambda ev, av, args, c: _first(av)
            fns["call:next_back"] = lambda ev, av, args, c: back(av)
            fns["havoc:next"] = lambda ev, old, c, t: leftover(old, 1)
            fns["call:nth"] = lambda ev, av, args, c: nth(av)
            fns["call:last"] = lambda ev, av, args, c: back(av)
            fns["call:deserialize"] = lambda ev, av, args, c: Adt("Result", "Ok", {"0": Adt("read", None, {"0": av[-1]})}) if av else None
            ev = Ev(e, env, fns=fns)
            lab = f"{m} with {total} left"
            for f, p, ch in ev.outcomes(("return", "panic")):
                ev.at(ch)
                where = f"{e.name} {p.span}"
                if p.end != "return":
                    ck.obl(sure(f, False) if f == "yes" else None, f"{e.name}:panic", f"{lab}: panics", where)
                    continue
                v = ev.ev(p.val)
                n += 1
                if not isinstance(v, Adt) or v.variant is None:
                    ck.undecided(e.name, lab)
                    continue
                if v.variant == "Err":
                    if f == "yes" and any(c.last == "deserialize" for c in p.calls()):
                        ck.obl(False, f"{e.name}:delivers", f"{lab}: fails", where)
                    continue
                got = v.fields.get("0")
                first = (X("k0") if ismap else X("e0"))
                want = Adt("read", None, {"0": X("held")}) if m == "next_value_seed" else NONE if total == 0 else Some(Adt("read", None, {"0": first}))
                ck.obl(None if got is None or not concrete(got) else sure(f, got == want), f"{e.name}:delivers", f"{lab}: delivers {got} instead of {want}", where)
                if m == "next_key_seed" and total and 0 in p.out:
                    st = ev.ev(p.out[0])
                    hs = [x for x in st.fields.values() if isinstance(x, Adt) and x.name == "Option" and not isinstance(inner(x.fields.get("0")), L)] if isinstance(st, Adt) else []
                    if len(hs) == 1 and (hs[0].variant == "None" or hs[0].fields.get("0") is not None):
                        ck.obl(sure(f, hs[0] == Some(X("v0"))), f"{e.name}:value", f"{lab}: the value kept for the key is {hs[0]}", where)
                    else:
                        ck.undecided(f"{e.name}:value", lab)
                if m != "next_value_seed" and 0 in p.out:
                    st = ev.ev(p.out[0])
                    ls = [inner(x) for x in st.fields.values()] if isinstance(st, Adt) else []
                    ls = [x for x in ls if isinstance(x, L)]
                    if len(ls) == 1:
                        ck.obl(sure(f, ls[0] == leftover(l, 1)), f"{e.name}:rest", f"{lab}: leaves {ls[0]}", where)
                    else:
                        ck.undecided(f"{e.name}:rest", lab)
    return n


def inner(v):
    while isinstance(v, Adt) and len(v.fields) == 1:
        v = next(iter(v.fields.values()))
    return v


def nth(av):
    if len(av) == 2 and isinstance(av[0], L) and isinstance(av[1], I) and av[1].const is not None:
        i = av[1].const
        return Some(av[0].xs[i]) if i < len(av[0].xs) else NONE


def concrete(v):
    if isinstance(v, Adt):
        return all(x is not None and concrete(x) for x in v.fields.values())
    return v is not None


def check(ck):
    RD, RV = run.analyse(dict(DE_GROUP), dict(VALUE_GROUP))
    D = DE(ck, RD)
    if D.name is None:
        return
    n = text(ck, D)
    ck.floor("container reads from text", n, 60)
    ck.floor("element reads from text", elements(ck, D), 15)
    ck.floor("element reads from a value", value_elements(ck, RV), 15)
    m = values(ck, RV)
    ck.floor("container reads from a value", m, 60)
