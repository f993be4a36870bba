import itertools
from absval import *
from model import *
from loadsim import *
from sysevents import *
from lib_err import errkinds
import run

WHAT = ("The loader's transfer function is driven through every history of up to four anchored or plain nodes and aliases over two names (and of two documents), and the events, alias table and error it builds are compared with the "
        "latest-preceding-anchor reference; the conversion of low-level events is checked to take each node's anchor from that node's own fields, present exactly when the parser set one.")
ASSUMES = ["std maps and vectors behave as specified", "the loader treats names only through map operations, so two names and four nodes show every case"]


def reference(toks):
    """-> (events as (kind, target position or None, token index), index of the unresolvable alias or None)"""
    evs, names = [], {}
    for i, t in enumerate(toks):
        if t[0] == "*":
            if t[1:] not in names:
                return evs, i
            evs.append(("Alias", names[t[1:]], i))
        else:
            if t[0] in ANCHORED and name(t):
                names[name(t)] = len(evs)
            evs.append((ANCHORED[t[0]][0] if t[0] in ANCHORED else PLAIN[t], None, i))
    return evs, None


def compare(ck, doc, toks, base_i, key, where):
    exp, bad = reference(toks)
    evs, al = parts(doc)
    if evs is None:
        return ck.undecided(key, "document not evaluated")
    evs = evs.xs
    h = " ".join(toks)
    if len(evs) != len(exp):
        ck.obl(False if all(x is not None for x in evs) else None, key + ":events", f"history '{h}' gives {len(evs)} events instead of {len(exp)}", where)
        return
    for n, ((kind, target, i), v) in enumerate(zip(exp, evs)):
        if not isinstance(v, Adt) or not isinstance(v.fields.get("0"), Adt):
            ck.undecided(key, "event not evaluated")
            continue
        ev, mark = v.fields["0"], v.fields.get("1")
        ck.obl(ev.variant == kind, key + ":kind", f"history '{h}': event {n} is {ev.variant} instead of {kind}", where)
        ck.obl(None if mark is None else mark == X(f"mark{base_i + i}"), key + ":mark", f"history '{h}': event {n} carries {mark}", where)
        if kind == "Alias":
            ident = ev.fields.get("0")
            pos = al.get(ident) if isinstance(al, M) and ident is not None else None
            if pos is None and isinstance(al, L) and isinstance(ident, I) and ident.const is not None and ident.const < len(al.xs):
                pos = al.xs[ident.const]
            if isinstance(al, M) and ident is not None and pos is None and not al.has(ident):
                ck.obl(False, key + ":dangling", f"history '{h}': alias {n} has no recorded position", where)
                continue
            ck.obl(None if not isinstance(pos, I) or pos.const is None else pos.const == target, key + ":target", f"history '{h}': alias {n} denotes event {pos} instead of {target}", where)
        else:
            pl = ev.fields.get("0")
            if kind in ("Scalar", "SequenceStart", "MappingStart"):
                for f in dict(ANCHORED.values())[kind]:
                    x = pl.fields.get(f) if isinstance(pl, Adt) else None
                    ck.obl(None if x is None else x == payload(f, toks[i], base_i + i), key + ":payload", f"history '{h}': the {f} of event {n} is {x}", where)


def check(ck):
    RL, RP = run.analyse(dict(LOADER_GROUP), dict(PARSER_GROUP))
    ld = Load(RL)
    hist = 0
    if ld.e is None:
        ck.undecided("loader", ld.why)
    else:
        ck.use(ld.e)
        start = ld.start(RL)
        e = ld.e
        ALL = ["S", "Sa", "Sb", "Sa!", "Q", "Qa", "Qb", "Qa!", "M", "Ma", "Ma!", "q", "m", "*a", "*b"]
        RED = ["Sa", "Sb", "Qa", "Ma", "q", "*a", "*b"]
        import os
        thorough = os.environ.get("VERIF_DEPTH") == "deep"
        hs = [()] + [h for n in (1, 2, 3) for h in itertools.product(ALL, repeat=n)] + list(itertools.product(RED, repeat=4))
        if thorough:
            hs += list(itertools.product(RED, repeat=5))
        if start is None:
            ck.undecided("loader", "initial loader state not evaluated")
        else:
            for h in hs:
                stop = next((i for i in range(len(h)) if reference(h[:i + 1])[1] is not None), None)
                if stop is not None and stop != len(h) - 1:
                    continue
                toks = ["<", "("] + list(h) + [")"]
                r = ld.call(start, [event(t, i) for i, t in enumerate(toks)])
                if r is None:
                    ck.undecided("history", " ".join(h))
                    continue
                hist += 1
                v, st, used, pp = r
                if v in ("panic", "diverge"):
                    ck.obl(False, "history:panic", f"history '{' '.join(h)}' panics", f"{e.name} {pp.span}")
                    continue
                p, ev = pp
                where = f"{e.name} {p.span}"
                o = opt(v)
                ck.obl(o is not None and o[0] == "Some" or None if o is None or o[0] == "Some" else False, "history:document", f"history '{' '.join(h)}' yields no document", where)
                if not o or o[0] != "Some":
                    continue
                kinds = errkinds(e, p.val)
                if stop is not None:
                    ck.obl("UnknownAnchor" in kinds, "unknown:error", f"history '{' '.join(h)}': an alias without a preceding anchor gives error {sorted(kinds) or None}", where)
                    for x in e.subterms(p.val):
                        k = e.terms[x]
                        if k[0] == "A" and k[2] == "UnknownAnchor":
                            m = ev.ev(k[3][0]) if k[3] else None
                            ck.obl(None if m is None else m == X(f"mark{len(h) + 1}"), "unknown:mark", f"the unknown-anchor error carries {m}", where)
                    compare(ck, o[1], list(h[:-1]), 2, "prefix", where)
                else:
                    ck.obl(not kinds, "history:error", f"history '{' '.join(h)}' gives error {sorted(kinds)}", where)
                    compare(ck, o[1], list(h), 2, "node", where)
            # names of another document do not count
            for a, b in itertools.product(["Sa", "Qa", "Ma", "S"], [["*a"], ["Sa", "*a"], ["Sb", "*b"], ["Qb", "q", "*a"], ["S"]]):
                t1 = ["<", "(", a, ")"]
                r1 = ld.call(start, [event(t, i) for i, t in enumerate(t1)])
                if r1 is None or r1[1] is None or r1[0] in ("panic", "diverge"):
                    ck.undecided("documents", a)
                    continue
                stop = reference(b)[1]
                t2 = ["("] + b + [")"]
                r2 = ld.call(r1[1], [event(t, i + 10) for i, t in enumerate(t2)])
                if r2 is None or r2[0] in ("panic", "diverge"):
                    ck.undecided("documents", f"{a} | {b}")
                    continue
                hist += 1
                v, st, used, (p, ev) = r2
                kinds = errkinds(e, p.val)
                where = f"{e.name} {p.span}"
                ck.obl(("UnknownAnchor" in kinds) == (stop is not None), "documents:error", f"after document '{a}', document '{' '.join(b)}' gives error {sorted(kinds)}", where)
                o = opt(v)
                if o and o[0] == "Some":
                    compare(ck, o[1], b[:stop], 11, "documents", where)
            ck.floor("histories", hist, 1000)
    # where anchors come from
    n = 0
    se = source_entry(RP)
    if se is None or se.cut or se.error:
        ck.undecided("conversion", "no unique event source in the parser")
        return
    ck.use(se)
    for p, kinds, variant, fields, mark in conversions(se):
        m = MEMBER.get(variant)
        if m is None:
            continue
        where = f"{se.name} {p.span}"
        a = fields.get("anchor") if variant != "Alias" else fields.get("0")
        ptrs = pointer(se, m, "anchor")
        n += 1
        if a is None:
            ck.undecided(f"{variant}:anchor", "anchor field not recognised")
            continue
        o = option(se, a) if variant != "Alias" else ("Some", a)
        if o is None:
            ck.undecided(f"{variant}:anchor", "not an option")
            continue
        null = [null_tested(se, p, t) for t in ptrs]
        null = next((x for x in null if x is not None), None)
        if o[0] == "None":
            ck.obl(null is True, f"{variant}:dropped", f"a {variant} event can lose its anchor", where)
        else:
            uf = unionfields(se, o[1])
            ck.obl(None if not uf else f"{m}.anchor" in uf and not any(x != f"{m}.anchor" for x in uf), f"{variant}:own", f"the anchor of a {variant} event is made from {sorted(uf)}", where)
            if variant != "Alias":
                ck.obl(null is not True, f"{variant}:null", "an anchor is read through a null pointer", where)
    ck.floor("node conversions", n, 12)
