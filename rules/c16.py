import re
from absval import *
from sim import *
from scalar import STR_FNS
from destate import *
from render import Render
from lib_err import errkinds
from loadsim import Load, LOADER_GROUP
import sysevents
import run

WHAT = ("Every path of the streaming deserializer on which a visitor's or the deserializer's own error leaves a node is extracted: the error must pass through the function that attaches a position, with the position of the event read and the reader's own path. "
        "That function is evaluated on errors with and without a position.  The nested reader handed to each element, key, value, variant and alias target is evaluated, and its path is rendered with the path's own Display; "
        "the sequence and map accesses are driven several steps.  Positions are followed from the low-level events through the loader.")
ASSUMES = ["a visitor returns errors without a position, or ones that already have theirs"]
GROUP = dict(DE_GROUP, opaque=["*de::invalid_type", "*error::*"])
ERR_GROUP = dict(entries=["error|*", "error::*|*", "libyaml::error|*", "path|*", "path::*|*"], max_paths=6000)
# callbacks that only pass on the reader of the same node, and answer for nothing themselves
# (an enum read leaves a tag that names no variant to the enclosing node: tests/test_error.rs expects so)
RELAY = ("visit_some", "visit_none", "visit_newtype_struct")
PATHS = [("Root", None, None), ("Map", "k", None), ("Seq", None, 7)]


def mkpath(kind, key=None, index=None, parent=None):
    f = {}
    if kind != "Root":
        f["parent"] = parent or Adt("Path", "Root", {})
    if key is not None:
        f["key"] = S(key)
    if index is not None:
        f["index"] = I(index, index)
    return Adt("Path", kind, f)


OWN = [mkpath("Root"), mkpath("Map", "top"), mkpath("Seq", None, 7), mkpath("Seq", None, 7, mkpath("Map", "top")), mkpath("Map", "inner", None, mkpath("Seq", None, 7)), mkpath("Alias", parent=mkpath("Map", "top")), mkpath("Unknown", parent=mkpath("Seq", None, 2))]


def oracle(p):
    """the text a path is shown as"""
    v, f = p.variant, p.fields
    if v == "Root":
        return "."
    par = f["parent"]
    pre = "" if par.variant == "Root" else oracle(par) + "."
    if v == "Seq":
        return f"{oracle(par)}[{f['index'].const}]"
    if v == "Map":
        return pre + f["key"].s
    if v == "Alias":
        return oracle(par)
    return pre + "?"


def deref(e, t):
    while e.terms[t][0] in ("d", "S") or e.terms[t][0] == "A" and not e.terms[t][2] and len(e.terms[t][3]) == 1 and e.terms[t][1].startswith(("&", "*")):
        k = e.terms[t]
        t = k[2] if k[0] == "S" else k[1] if k[0] == "d" else k[3][0]
    return t


class Rule:
    def __init__(self, ck, R, E):
        self.ck, self.R, self.E = ck, R, E
        self.D = DE(ck, R)
        self.fix = set()
        self.n = 0

    def stored(self):
        """is the path of an existing reader ever assigned?"""
        D = self.D
        self.assigned = any(self.D.own(e, q, D.path) for e in D.entries() for p in e.paths for q, t, _ in p.stores())
        self.assigned |= any(e.terms[q][0] == "f" and e.terms[q][3] == D.path and e.ty(e.terms[q][1]) == D.name for e in D.entries() for p in e.paths for q in p.heap)

    # ---- where an error is given its position
    def attach(self, e, c):
        """(error, mark, path) terms of a call that attaches a position, or None"""
        a = {}
        for x in c.args:
            ty = (e.ty(x) or "").replace("&mut ", "").replace("&", "")
            n = ty.partition("<")[0].rsplit("::", 1)[-1]
            if n in ("Error", "Mark", "Path"):
                a[n] = x
        return (a["Error"], a["Mark"], a["Path"]) if len(a) == 3 and e.ty(c.ret) == "Error" else None

    def eventmark(self, e, t):
        """distance of the event whose mark t is from the reader's own position: int, or None"""
        t = deref(e, t)
        k = e.terms[t]
        if k[0] == "f" and k[3] == "1":
            b = deref(e, k[1])
            kb = e.terms[b]
            if kb[0] == "f" and kb[2] == "Some":
                a = e.terms[deref(e, kb[1])]
                if a[0] == "a" and base(a[1])[1] == "get" and len(a[2]) == 2:
                    return self.posdelta(e, a[2][1])
            if kb[0] == "a" and base(kb[1])[1] in ("index", "get_unchecked") and len(kb[2]) == 2:
                return self.posdelta(e, kb[2][1])
        return None

    def posdelta(self, e, t, d=0):
        if d > 8:
            return None
        k = e.terms[t]
        if k[0] in ("d", "S"):
            return self.posdelta(e, k[2] if k[0] == "S" else k[1], d + 1)
        if self.D.own(e, t, self.D.pos):
            return 0
        if k[0] == "b" and k[1] in ("Add", "Sub") and e.int(k[3]) is not None:
            x = self.posdelta(e, k[2], d + 1)
            return None if x is None else x + e.int(k[3]) * (1 if k[1] == "Add" else -1)
        return None

    def ownpath(self, e, t):
        """True / False / None: t displays as the reader's own path"""
        t = deref(e, t)
        if self.D.own(e, t, self.D.path):
            return True
        k = e.terms[t]
        if k[0] == "y" and k[1] in ("havoc", "loop"):
            # a callee held the reader; nothing assigns its path (see stored())
            return self.ownpath(e, k[3]) if not self.assigned else None
        if k[0] == "A" and (e.ty(t) or "").endswith("Path"):
            if k[2] == "Alias":
                return self.ownpath(e, k[3][0])
            return False
        return None

    def errors(self):
        ck, D = self.ck, self.D
        n = 0
        for e in D.entries("Deserializer"):
            if not e.name.startswith("<&mut "):
                continue
            m = e.name.rsplit("deserialize_", 1)[-1]
            if e.error or e.cut:
                ck.undecided(m, "analysis cut")
                continue
            ck.use(e)
            for p in e.paths:
                if p.end != "return":
                    continue
                where = f"{e.name} {p.span}"
                sub = e.subterms(p.val)
                k = e.terms[p.val]
                if k[0] == "A" and k[2] == "Ok":
                    continue
                at = {}
                for c in p.calls():
                    a = self.attach(e, c)
                    if a and c.ret in sub:
                        at[c.ret] = (a, c)
                        self.fix.add(c.name)
                covered = set()
                for (x, mk, pt), c in at.values():
                    covered |= e.subterms(x)
                    d, o = self.eventmark(e, mk), self.ownpath(e, pt)
                    n += 1
                    ck.obl(None if d is None else d == 0, f"{m}:mark", f"the error of a {m} read gets the position of another event ({'+' if d and d > 0 else ''}{d} from the one read)", where)
                    ck.obl(o, f"{m}:path", f"the error of a {m} read gets the path {e.show(pt)[:60]}, not the reader's own", where)
                for c in p.calls():
                    own = c.last.startswith("visit_") and c.last not in RELAY and not (m == "enum" and c.last == "visit_enum") or c.is_("invalid_type", "invalid_value", "invalid_length", "custom") or (c.kind != "rec" and e.ty(c.ret) == "Error" and not self.attach(e, c) and not errkinds(e, c.args[0] if c.args else c.ret) and c.last in ("custom", "invalid_type", "invalid_value", "invalid_length", "unknown_variant", "unknown_field", "missing_field", "duplicate_field"))
                    if not own or c.ret not in sub or m == "ignored_any":
                        continue
                    n += 1
                    if c.ret in covered:
                        continue
                    # it leaves as it is
                    raw = p.val == c.ret or k[0] == "A" and k[2] == "Err" and (k[3][0] == c.ret or e.terms[k[3][0]][0] == "f" and e.terms[k[3][0]][1] == c.ret)
                    may_err = p.variants(c.ret) is None or "Err" in p.variants(c.ret)
                    if raw and may_err:
                        ck.violation(f"{m}:{c.last}:bare", f"the error of {c.last} leaves a {m} read without a position", where)
                    elif may_err:
                        ck.undecided(f"{m}:{c.last}", e.show(p.val)[:80])
                for x in sub:
                    kx = e.terms[x]
                    if kx[0] == "A" and kx[2] == "RecursionLimitExceeded" and kx[3]:
                        d = self.eventmark(e, kx[3][0])
                        ck.obl(None if d is None else d == 0, f"{m}:limit", "the recursion limit is reported at another event than the one read", where)
        ck.floor("errors that leave a node", n, 200)
        if not self.fix:
            ck.undecided("attach", "no function that attaches a position was recognised")

    # ---- the attaching function itself
    def fixer(self):
        ck = self.ck
        for name in sorted(self.fix):
            es = [e for e in self.E.entries if (e.module + "::" + e.name).endswith(name.rsplit("::", 1)[-1]) and e.module == "error"]
            if len(es) != 1 or es[0].cut or es[0].error:
                ck.undecided("attach:" + name.rsplit("::", 1)[-1], "not analysed")
                continue
            e = es[0]
            ck.use(e)
            ty = {(e.ty(t) or "").replace("&", "").replace("mut ", "").partition("<")[0]: t for t, _ in e.params}
            if not {"Error", "Mark", "Path"} <= set(ty):
                ck.undecided("attach:" + e.name, "parameters not recognised")
                continue
            here = X("here")
            fns = dict(FNS)
            fns.update({"to_string": lambda ev, av, at, t: X("text:" + oracle(av[0])) if av and isinstance(av[0], Adt) and av[0].name == "Path" else None})
            fns["call:to_string"] = lambda ev, av, args, c: fns["to_string"](ev, av, args, c.ret)
            old = Adt("Pos", None, {"mark": X("there"), "path": X("text:old")})
            cases = [("without a position", Adt("ErrorImpl", "Message", {"0": X("msg"), "1": NONE}), True), ("that has its position", Adt("ErrorImpl", "Message", {"0": X("msg"), "1": Some(old)}), False)]
            cases += [(f"of kind {v}", Adt("ErrorImpl", v, {"0": X("detail")}), False) for v in ("Libyaml", "Io", "Shared", "RecursionLimitExceeded", "UnknownAnchor")]
            cases += [(f"of kind {v}", Adt("ErrorImpl", v, {}), False) for v in ("EndOfStream", "RepetitionLimitExceeded", "BytesUnsupported")]
            for lab, impl, set_ in cases:
                for own in OWN:
                    ev = Ev(e, {ty["Error"]: Adt("Error", None, {"0": impl}), ty["Mark"]: here, ty["Path"]: own}, fns=fns)
                    seen = 0
                    for f, p, ch in ev.outcomes(("return", "panic")):
                        ev.at(ch)
                        seen += 1
                        where = f"{e.name} {p.span}"
                        if p.end == "panic":
                            ck.obl(sure(f, False), "attach:panic", f"an error {lab} makes {e.name} panic", where)
                            continue
                        got = self.after(e, p, ev, impl)
                        want = Adt("ErrorImpl", "Message", {"0": X("msg"), "1": Some(Adt("Pos", None, {"mark": here, "path": X("text:" + oracle(own))}))}) if set_ else impl
                        ok = None if got is None or self.holes(got) else sure(f, got == want)
                        ck.obl(ok, f"attach:{lab}", f"an error {lab}, given a position at {oracle(own)}, becomes {got} instead of {want}", where)
                    if not seen:
                        ck.undecided(f"attach:{lab}", "no path")

    def holes(self, v):
        return v is None or isinstance(v, Adt) and any(self.holes(x) for x in v.fields.values())

    def after(self, e, p, ev, impl):
        v = ev.ev(p.val)
        k = e.terms[p.val]
        if isinstance(v, Adt) and v.name == "Error":
            v = v.fields.get("0")
        if not isinstance(v, Adt):
            return None
        # what was written through the error's box before it was returned
        fields = dict(v.fields)
        variant = v.variant
        for q, t in p.heap.items():
            path, x = [], q
            while e.terms[x][0] in ("f", "d", "S"):
                kx = e.terms[x]
                if kx[0] == "f":
                    path.append((kx[2], kx[3]))
                x = kx[2] if kx[0] == "S" else kx[1]
            if e.terms[x][0] != "y" or (e.ty(x) or "") != "Error" and "Error" not in (e.ty(x) or ""):
                if e.terms[x][0] != "a":
                    return None
            path.reverse()
            inner = [n for vv, n in path if vv]
            if path and path[-1][0] == variant:
                fields[path[-1][1]] = ev.ev(t)
            elif not inner and len(path) <= 1:
                w = ev.ev(t)
                if isinstance(w, Adt) and w.name == "ErrorImpl":
                    return w
                return None
            else:
                return None
        return Adt("ErrorImpl", variant, fields)

    # ---- what nested readers are told
    def own_env(self, e, own):
        return {t: own for t in e.terms if self.D.own(e, t, self.D.path) and e.terms[t][0] != "A"}

    def shown(self, v):
        if not isinstance(v, Adt) or v.name != "Path":
            return None
        r = self.rd.value(v)
        return next(iter(r)) if r and len(r) == 1 else None

    def nested(self):
        ck, D = self.ck, self.D
        n = 0
        for e in D.entries():
            if e.error or e.cut or e.name.startswith("<Deserializer as "):
                continue
            m = e.name.rsplit("::", 1)[-1]
            inner = ("next_element_seed", "next_value_seed", "next_key_seed")
            if m in inner:
                continue
            ck.use(e)
            for p in e.paths:
                for c in p.calls():
                    if c.kind not in ("opaque", "rec", "deep") or self.attach(e, c):
                        continue
                    for a in c.args:
                        if e.terms[a][0] == "y":
                            continue
                        for st in D.states(e, a):
                            t = D.get(e, st, D.path)
                            if t is None:
                                continue
                            n += 1
                            o = True if t == "own" else self.ownpath(e, t)
                            ck.obl(o, f"{m}:{c.last}:path", f"the node read by {c.last} is the one being read, but its reader has the path {t if t == 'own' else e.show(t)[:60]}", f"{e.name} {p.span}")
            for p in e.paths if m == "variant_seed" else ():
                for st in D.states(e, p.val) if p.end == "return" else ():
                    t = D.get(e, st, D.path)
                    if t is not None and e.terms[st][0] == "A":
                        n += 1
                        ck.obl(self.ownpath(e, t), f"{m}:content:path", f"the content of a variant is read with the path {e.show(t)[:60]}, not that of its node", f"{e.name} {p.span}")
        ck.floor("readers passed on", n, 60)

    def access(self, name):
        es = [e for e in self.R.entries if e.name.endswith("::" + name) and e.module == "de" and not e.cut and not e.error]
        return es[0] if len(es) == 1 else None

    def construct(self, visit, own):
        """accesses as visit_seq / visit_map get them, by the entry that builds them"""
        D = self.D
        out = []
        for e in D.entries("Deserializer"):
            if e.error or e.cut:
                continue
            for p in e.paths:
                for c in p.calls():
                    if c.last != visit or len(c.args) < 2:
                        continue
                    env = {t: Adt(D.name, None, {D.path: own}) for t, k in e.terms.items() if k[0] == "d" and k[1] == e.params[0][0] and e.ty(t) == D.name}
                    env.update(self.own_env(e, own))
                    ev = Ev(e, env, fns=dict(FNS, **STR_FNS))
                    v = ev.ev(c.args[1])
                    if isinstance(v, Adt):
                        out.append((e, v))
        seen, res = set(), []
        for e, v in out:
            if repr(v) not in seen:
                seen.add(repr(v))
                res.append((e, v))
        return res

    def step(self, e, acc, event, own):
        """feasible (path, Ev, nested reader's path text or None when none is read, access afterwards)"""
        D = self.D
        me = e.params[0][0]
        fns = dict(FNS, **STR_FNS)

        def get(ev, av, at, t):
            return Some(Adt("tuple", None, {"0": event, "1": X("mark")})) if (e.ty(t) or "").startswith("Option<") and "Event" in e.ty(t) else None
        fns["get"] = get
        fns["call:deserialize"] = lambda ev, av, a, c: Adt("Result", "Ok", {"0": X("value")})
        env = {}
        for t, k in e.terms.items():
            if k[0] == "d" and k[1] == me:
                env[t] = acc
            elif self.D.own(e, t, self.D.path) and k[0] != "A":
                env[t] = own
        # flags and counters of the access, read one by one
        for t, k in e.terms.items():
            if k[0] == "f" and e.terms[k[1]][0] == "d" and e.terms[k[1]][1] == me and k[3] in acc.fields and acc.fields[k[3]] is not None:
                env[t] = acc.fields[k[3]]
        ev = Ev(e, env, fns=fns)
        out = []
        for f, p, ch in ev.outcomes(("return", "panic")):
            ev.at(ch)
            if p.end == "panic":
                continue
            text = None
            for c in p.calls():
                if c.last != "deserialize" and not c.last.startswith("deserialize_"):
                    continue
                for a in c.args:
                    if e.terms[a][0] == "y":
                        continue
                    for st in D.states(e, a):
                        t = D.get(e, st, D.path)
                        v = own if t == "own" else ev.ev(t) if t is not None else None
                        text = self.shown(v) or "?unknown"
            nxt = dict(acc.fields)
            o = p.out.get(0)
            if o is not None:
                w = ev.ev(o)
                if isinstance(w, Adt):
                    for n, x in w.fields.items():
                        if n != "de" and not (isinstance(x, Adt) and x.name == D.name):
                            nxt[n] = x
            out.append((f, p, text, Adt(acc.name, None, nxt)))
        return out

    def sequences(self):
        ck = self.ck
        e = self.access("next_element_seed")
        if e is None:
            ck.undecided("elements", "no unique sequence access")
            return
        ck.use(e)
        n = 0
        for own in OWN:
            accs = self.construct("visit_seq", own)
            good = [(x, a) for x, a in accs if not any(v == TRUE for v in a.fields.values())]
            if not good:
                ck.undecided("elements", "how a sequence is announced was not recognised")
                return
            for x, acc in good[:4]:
                for i in range(3):
                    rs = self.step(e, acc, Adt("Event", "Scalar", {"0": Adt("Scalar", None, {"value": S("v")})}), own)
                    read = [r for r in rs if r[2] is not None]
                    want = f"{oracle(own)}[{i}]"
                    if not read or any(r[2] == "?unknown" for r in read):
                        ck.undecided("elements:path", want)
                        break
                    for f, p, text, nx in read:
                        n += 1
                        ck.obl(sure(f, text == want), "elements:path", f"element {i} of the sequence at {oracle(own)!r} is read with the path {text!r} instead of {want!r}", f"{e.name} {p.span}")
                    acc = read[0][3]
        ck.floor("element steps", n, 20)

    def maps(self):
        ck = self.ck
        ke, ve = self.access("next_key_seed"), self.access("next_value_seed")
        if ke is None or ve is None:
            ck.undecided("entries", "no unique map access")
            return
        ck.use(ke)
        ck.use(ve)
        n = 0
        sc = lambda v: Adt("Event", "Scalar", {"0": Adt("Scalar", None, {"anchor": NONE, "tag": NONE, "value": v, "style": Adt("ScalarStyle", "Plain"), "repr": NONE})})
        for own in OWN:
            good = [(x, a) for x, a in self.construct("visit_map", own) if not any(v == TRUE for v in a.fields.values())]
            if not good:
                ck.undecided("entries", "how a mapping is announced was not recognised")
                return
            pre = "" if own.variant == "Root" else oracle(own) + "."
            for x, acc0 in good[:3]:
                acc = acc0
                for key, event in (("first", sc(S("first"))), ("second", sc(S("second"))), (None, Adt("Event", "SequenceStart", {"0": Adt("SequenceStart", None, {})})), (None, Adt("Event", "Alias", {"0": I(3, 3)})), ("last", sc(S("last")))):
                    ks = [r for r in self.step(ke, acc, event, own) if r[2] is not None]
                    if not ks or any(r[2] == "?unknown" for r in ks):
                        ck.undecided("keys:path", str(key))
                        break
                    for f, p, text, nx in ks:
                        n += 1
                        ck.obl(sure(f, text.startswith(oracle(own)) if own.variant != "Root" else True), "keys:path", f"a key of the mapping at {oracle(own)!r} is read with the path {text!r}", f"{ke.name} {p.span}")
                    acc = ks[0][3]
                    vs = [r for r in self.step(ve, acc, event, own) if r[2] is not None]
                    want = pre + (key or "?")
                    if not vs or any(r[2] == "?unknown" for r in vs):
                        ck.undecided("values:path", str(key))
                        break
                    for f, p, text, nx in vs:
                        n += 1
                        ck.obl(sure(f, text == want), "values:path", f"the value of {'key ' + key if key else 'a key that is not plain text'} in the mapping at {oracle(own)!r} is read with the path {text!r} instead of {want!r}", f"{ve.name} {p.span}")
                    acc = vs[0][3]
        ck.floor("entry steps", n, 40)

    # ---- how it is shown
    def display(self):
        ck = self.ck
        self.rd = Render(self.E)
        es = self.rd.entries("Path", "Display")
        if not es:
            ck.violation("missing:path", "a path has no Display any more", "path")
            return False
        ck.use(es[0])
        for p in OWN + [mkpath("Seq", None, i, q) for q in OWN for i in (0, 10)] + [mkpath(k, "x" if k == "Map" else None, None, q) for q in OWN for k in ("Map", "Alias", "Unknown")]:
            r = self.rd.value(p)
            if not r or None in r:
                ck.undecided("shown", oracle(p))
                continue
            for t in r:
                ck.obl(t == oracle(p), "shown", f"the path {oracle(p)!r} is shown as {t!r}", f"{es[0].name} {es[0].span}")
        for path in (".", "a", "a.b[3].c", "[2]"):
            for mk in (0, 4):
                m = Adt("yaml_mark_t", None, {"index": I(9, 9), "line": I(mk, mk), "column": I(mk, mk)})
                m = Adt("Mark", None, dict(m.fields, sys=m))
                err = Adt("Error@error", None, {"0": Adt("ErrorImpl", "Message", {"0": S("broken"), "1": Some(Adt("Pos", None, {"mark": m, "path": S(path)}))})})
                want = ("" if path == "." else path + ": ") + "broken"
                for how in ("display", "debug"):
                    r = self.rd.value(err, how)
                    if not r or None in r:
                        ck.undecided("error:shown", path)
                        continue
                    for t in r:
                        ck.obl(want in t and (path != "." or ".: " not in t), f"error:{how}", f"an error at {path!r} is shown as {t!r}", "error")
        return True

    # ---- where positions come from
    def sources(self):
        ck = self.ck
        L, P = run.analyse(dict(LOADER_GROUP), dict(sysevents.PARSER_GROUP))
        s = sysevents.source_entry(P)
        if s is None:
            ck.undecided("event:mark", "no unique source of events")
        else:
            ck.use(s)
            n = 0
            for p, kinds, variant, fields, mark in sysevents.conversions(s):
                h = sysevents.headfields(s, mark) & {"start_mark", "end_mark"}
                n += 1
                ck.obl(None if not h else h == {"start_mark"}, f"event:mark:{variant}", f"a {variant} event gets the position of its {'end' if 'end_mark' in h else 'start'}", f"{s.name} {p.span}")
            ck.floor("event conversions", n, 8)
        ld = Load(L)
        if not ld.e:
            ck.undecided("loader", ld.why)
            return
        ck.use(ld.e)
        for toks in (["<", "(", "S", ")", ">"], ["<", "(", "Q", "S", "Sa", "*a", "M", "S", "S", "m", "q", ")", ">"], ["<", "(", "Ma", "S", "*a", "S!", "Q", "q", "m", ")", "(", "S", ")", ">"]):
            from loadsim import event
            st = ld.start(L)
            ins = [event(t, i) for i, t in enumerate(toks)]
            used0 = 0
            while True:
                r = ld.call(st, ins[used0:]) if st is not None else None
                if r is None or r[1] is None or not isinstance(r[0], Adt):
                    ck.undecided("loader:mark", " ".join(toks))
                    break
                v, st, used, _ = r
                if v.variant == "None":
                    break
                used0 += used
                doc = v.fields["0"]
                evs = next((x for x in doc.fields.values() if isinstance(x, L_)), None)
                if evs is None:
                    ck.undecided("loader:mark", "events not followed")
                    break
                for x in evs.xs:
                    mk, ty = x.fields.get("1"), x.fields.get("0")
                    if not isinstance(mk, X) or not isinstance(ty, Adt):
                        ck.undecided("loader:mark", str(x))
                        continue
                    i = int(re.sub(r"\D", "", mk.name) or -1)
                    own = set(re.findall(r"(?:value|tag|style|repr)(\d+)", repr(ty)))
                    kind = {"S": "Scalar", "Q": "SequenceStart", "M": "MappingStart", "q": "SequenceEnd", "m": "MappingEnd", "*": "Alias"}.get(toks[i][0]) if 0 <= i < len(toks) else None
                    ck.obl((not own or own == {str(i)}) and ty.variant == kind, "loader:mark", f"a {ty.variant} event of {' '.join(toks)} is stored with the position of event {i} ({kind})", f"{ld.e.name} {ld.e.span}")
                if not used:
                    break


L_ = L


def sure(f, ok):
    return None if ok is False and f not in ("yes", "free") else ok


def check(ck):
    R, E = run.analyse(dict(GROUP), dict(ERR_GROUP))
    r = Rule(ck, R, E)
    if r.D.name is None:
        return
    if r.D.path is None:
        ck.undecided("path", "the reader keeps no path")
        return
    r.stored()
    r.errors()
    r.fixer()
    if r.display():
        r.nested()
        r.sequences()
        r.maps()
    r.sources()
