from absval import *
from model import *
from lib_err import errkinds
import run

WHAT = ("Value::apply_merge is evaluated for every kind of node and, for a mapping, every kind of << value and of sequence element: which entries it inserts, that occupied keys are left alone and merged entries are visited in order, "
        "which error each wrong kind yields, and that every child of every container is visited afterwards.")
ASSUMES = ["indexmap's entry/remove operations mean what they say", "Vec::pop/push/extend deliver every pushed node exactly once"]

MAPX = X("map")
SCALARS = ("Null", "Bool", "Number", "String")
KEY, VAL = X("key"), X("val")


def mkmap(x):
    return Adt("Mapping", None, {"map": x})


def scalar(k):
    return Val(k, None if k == "Null" else X("payload"))


def ismap(v, x):
    return v == x or isinstance(v, Adt) and v.name == "Mapping" and v.fields.get("map") == x


def ismergekey(k):
    if isinstance(k, Adt) and k.name == "HashLikeValue":
        k = k.fields.get("0")
    if isinstance(k, Adt) and k.name == "Value":
        k = k.fields.get("0") if k.variant == "String" else None
    return None if k is None else k == S("<<")


PAIR = Adt("tuple", None, {"0": X("childkey"), "1": X("child")})


class Scene:
    """one node, the value under <<, and what the loops find"""
    def __init__(self, node, merge=None, live=False, elem=None, occupied=False, child=False, key=KEY, nested="Ok"):
        self.node, self.merge, self.live, self.elem, self.occupied, self.child, self.key, self.nested = node, merge, live, elem, occupied, child, key, nested

    def fns(self):
        sc = self

        def view(ev, av, at, t):
            v = av[0] if av else None
            return v if isinstance(v, Adt) and v.name == "View" else None if v is None else Adt("View", "in-order", {"of": v.fields["map"] if isinstance(v, Adt) and v.name == "Mapping" else v})

        def values(ev, av, at, t):
            return Adt("View", "values", {"of": MAPX}) if av and ismap(av[0], MAPX) else None

        def part(ev, av, at, t):
            v = av[0] if av else None
            return Adt("View", "part", dict(v.fields)) if isinstance(v, Adt) and v.name == "View" else None

        def rev(ev, av, at, t):
            v = av[0] if av else None
            return Adt("View", "reversed" if v.variant != "part" else "part", dict(v.fields)) if isinstance(v, Adt) and v.name == "View" else None

        def same(ev, av, at, t):
            return av[0] if av else None

        def look(removes, pair=False):
            def f(ev, av, at, t):
                ks = [a for a in av if not ismap(a, MAPX)]
                if len(ks) != 1 or len(av) != 2:
                    return None
                m = ismergekey(ks[0])
                if m is None:
                    return Some(X("old")) if ks[0] == KEY and sc.occupied else NONE if ks[0] == KEY else None
                if not m or sc.merge is None:
                    return NONE
                return Some(Adt("tuple", None, {"0": S("<<"), "1": sc.merge}) if pair else sc.merge)
            return f

        def nxt(ev, av, at, c):
            v = av[0] if av else None
            if not isinstance(v, Adt) or v.name != "View":
                return None
            of = v.fields.get("of")
            if of == MAPX and v.variant != "values":
                # keys and values together
                return Some(PAIR) if sc.child else NONE
            if of in (MAPX, X("seq")):
                return Some(X("child")) if sc.child else NONE
            if of == X("mergemap"):
                return Some(Adt("tuple", None, {"0": sc.key, "1": VAL})) if sc.live else NONE
            if of == X("mergeseq"):
                return Some(sc.elem) if sc.elem is not None else NONE
            return None

        def contains(ev, av, at, t):
            ks = [a for a in av if not ismap(a, MAPX)]
            if len(ks) != 1:
                return None
            m = ismergekey(ks[0])
            return B(sc.merge is not None) if m else B(sc.occupied) if ks[0] == KEY else None
        h = {"into_iter": view, "iter": view, "iter_mut": view, "drain": view, "by_ref": view, "values_mut": values, "rev": rev, "skip": part, "take": part, "step_by": part, "filter": part, "skip_while": part, "take_while": part, "next": nxt, "next_back": nxt,
             "cloned": same, "clone": same, "copied": same, "as_mut": same, "peekable": same, "fuse": same,
             "contains_key": contains, "is_key_into": contains,
             "entry": lambda ev, av, at, t: Adt("Entry", "Occupied" if sc.occupied else "Vacant", {"0": X("occ" if sc.occupied else "vac")}) if len(av) == 2 and (av[1] == KEY or sc.key is not KEY and ismergekey(av[1])) else None,
             "insert": lambda ev, av, at, t: None, "into_mut": lambda ev, av, at, t: X("oldplace"), "get_mut": look(False), "get": look(False)}
        for n in ("remove", "swap_remove", "shift_remove", "swap_remove_from", "shift_remove_from"):
            h[n] = look(True)
        for n in ("remove_entry", "swap_remove_entry", "shift_remove_entry"):
            h[n] = look(True, True)
        h["apply_merge"] = lambda ev, av, at, t: Adt("Result", sc.nested, {"0": X("unit" if sc.nested == "Ok" else "failure")})
        h["pop"] = lambda ev, av, at, t: Some(sc.node) if sc.node is not None else NONE
        h["pop_front"] = h["pop_back"] = h["pop"]
        out = {"call:" + k: v for k, v in h.items()}
        out.update({k: v for k, v in h.items() if k not in ("insert", "pop")})
        out["havoc*"] = lambda ev, old, c, t: old if isinstance(old, (X, Adt)) else None
        return out


def run_scene(e, sc):
    env = {}
    if not any(c.last.startswith("pop") for p in e.paths for c in p.calls()):
        env[e.params[0][0]] = sc.node    # recursive form: the node is the argument
    ev = Ev(e, env, None, sc.fns())
    return ev, ev.outcomes(("return", "back", "panic"))


def inserts(ev, p):
    out = []
    for c in p.all_calls():
        av = [ev.ev(a) for a in c.args]
        if c.last in ("insert", "insert_entry") and "VacantEntry" in c.name:
            out.append((KEY if av[0] == X("vac") else None, av[-1]))
        elif c.last in ("insert", "insert_full") and "IndexMap" in c.name:
            out.append((av[1], av[2]))
        elif c.last in ("insert",) and "OccupiedEntry" in c.name:
            out.append((X("overwrite"), av[-1]))
        elif c.last in ("extend", "append") and av and ismap(av[0], MAPX):
            out.append((X("overwrite"), X("all")))
    out += [(X("overwrite"), ev.ev(v)) for pl, v, sp in p.stores() if ev.ev(pl) in (X("oldplace"), X("old"))]
    return out


def visited(ev, p):
    """child nodes or views handed on along p; None if something handed on is not understood"""
    out = []
    for c in p.all_calls():
        if c.last in ("push", "push_back", "extend", "append", "extend_from_slice") and ("Vec" in c.name or "Extend" in c.name or "VecDeque" in c.name):
            a = ev.ev(c.args[1]) if len(c.args) > 1 else None
            if isinstance(a, Adt) and len(a.fields) == 1 and a.name not in ("View", "Value"):
                a = next(iter(a.fields.values()))
            if a is None and ev.e.terms[ev.e.strip(c.args[1])][0] == "y" and ev.e.terms[ev.e.strip(c.args[1])][1] == "param":
                continue    # the root
            out.append(a)
        elif c.kind == "rec":
            out.append(ev.ev(c.args[0]))
        elif c.last == "next":
            v = ev.ev(c.args[0])
            if isinstance(v, Adt) and v.name == "View" and ev.ev(c.ret) == NONE:
                out.append(v)
    if p.end == "back":
        out += [v for v in (ev.ev(n) for s, n in p.val[1]) if isinstance(v, X)]
    return out


def check(ck):
    R = run.analyse(dict(entries=["value|Value::apply_merge"], opaque=["*Value as Clone*", "*Mapping as Clone*"], max_paths=4000))
    e = ck.need(R, "Value::apply_merge")
    if not e:
        return
    seqv, mapv = Val("Sequence", X("seq")), Val("Mapping", mkmap(MAPX))
    want_children = {"Sequence": [Adt("View", "in-order", {"of": X("seq")}), X("seq")], "Mapping": [Adt("View", "values", {"of": MAPX}), Adt("View", "in-order", {"of": MAPX})], "Tagged": [X("inner")]}
    tag = Val("Tagged", Adt("TaggedValue", None, {"tag": X("tag"), "value": X("inner")}))

    def done(key, sc, kind, what):
        """the node is finished: its children are handed on and nothing else happens to it"""
        ev, rs = run_scene(e, sc)
        if not rs:
            ck.undecided(key, "no feasible path")
        for f, p, ch in rs:
            ev.at(ch)
            at = f"{e.name} {p.span}"
            v = ev.ev(p.val) if p.end == "return" else None
            if p.end == "panic":
                ck.obl(sure(f, False), key, f"{what}: panics", at)
                continue
            if p.end == "return" and not (isinstance(v, Adt) and v.variant == "Ok"):
                rec = any(c.kind == "rec" for c in p.calls())
                ck.obl(None if v is None or rec else sure(f, False), key, f"{what}: yields the error {sorted(errkinds(e, p.val))}", at)
                continue
            if p.end == "return" and any(c.last.startswith("pop") for c in p.calls()):
                ck.obl(sure(f, False), key, f"{what}: stops although nodes may be left", at)
                continue
            ins = inserts(ev, p)
            ck.obl(sure(f, not ins if (None, None) not in ins else None), key + ":untouched", f"{what}: inserts {ins}", at)
            vis = visited(ev, p)
            w = want_children.get(kind)
            if w is None:
                continue
            if sc.child and any(c.last == "next" and ev.ev(c.ret) in (Some(X("child")), Some(PAIR)) for c in p.calls()):
                ck.obl(sure(f, X("child") in vis), key + ":child", f"{what}: a child is not visited (only {vis})", at)
                continue
            if any(x in vis or isinstance(x, Adt) and Adt("View", "reversed", x.fields) in vis for x in w):
                ck.obl(True, key)
            else:
                other = [x for x in vis if x is None]
                ck.obl(None if other else sure(f, False), key + ":children", f"{what}: its children are not visited (only {vis})", at)
            extra = [x for x in vis if x == X("inner") and kind != "Tagged"]
            ck.obl(sure(f, not extra), key + ":extra", f"{what}: visits {extra}", at)
            if kind == "Mapping" and sc.merge is not None:
                rm = [c for c in p.all_calls() if "remove" in c.last and ("IndexMap" in c.name or "Mapping" in c.name)]
                ck.obl(sure(f, bool(rm)), key + ":removed", f"{what}: << stays in the mapping", at)

    def fails(key, sc, kind, what):
        ev, rs = run_scene(e, sc)
        if not rs:
            ck.undecided(key, "no feasible path")
        for f, p, ch in rs:
            ev.at(ch)
            at = f"{e.name} {p.span}"
            if p.end != "return":
                ck.obl(sure(f, False), key, f"{what}: {'panics' if p.end == 'panic' else 'is accepted'}", at)
                continue
            v = ev.ev(p.val)
            if not isinstance(v, Adt) or v.variant not in ("Ok", "Err"):
                ck.undecided(key, "result not understood")
                continue
            ks = errkinds(e, p.val)
            ck.obl(sure(f, False if v.variant == "Ok" else None if not ks else ks == {kind}), key, f"{what}: yields {'Ok' if v.variant == 'Ok' else sorted(ks)}, expected {kind}", at)

    def merges(key, sc, what):
        """one entry of a merged mapping"""
        ev, rs = run_scene(e, sc)
        if not rs:
            ck.undecided(key, "no feasible path")
        for f, p, ch in rs:
            ev.at(ch)
            at = f"{e.name} {p.span}"
            if p.end != "back":
                v = ev.ev(p.val) if p.end == "return" else X("panic")
                ck.obl(None if v is None else sure(f, False), key, f"{what}: ends with {v}", at)
                continue
            ins = inserts(ev, p)
            part = [c for c in p.all_calls() if c.last.startswith("next") and isinstance(ev.ev(c.args[0]), Adt) and ev.ev(c.args[0]).variant in (("part", "in-order") if c.last == "next_back" else ("part", "reversed"))]
            ck.obl(sure(f, not part), key + ":order", f"{what}: merged entries are not all visited in order", at)
            if sc.occupied:
                ck.obl(sure(f, not ins), key, f"{what}: a key the mapping already has is changed by {ins}", at)
            else:
                ck.obl(sure(f, None if any(None in i for i in ins) else ins == [(KEY, VAL)]), key, f"{what}: a new key is stored as {ins}", at)

    for k in SCALARS:
        done(f"node:{k}", Scene(scalar(k)), k, f"a {k} node")
        fails(f"merge:{k}", Scene(mapv, scalar(k)), "ScalarInMerge", f"<< with a {k} value")
        fails(f"element:{k}", Scene(mapv, Val("Sequence", X("mergeseq")), elem=scalar(k)), "ScalarInMergeElement", f"<< with a sequence holding a {k}")
    for live in (False, True):
        done(f"node:Sequence:{live}", Scene(seqv, child=live), "Sequence", "a sequence node")
        done(f"node:Mapping:{live}", Scene(mapv, child=live), "Mapping", "a mapping node without <<")
    done("node:Tagged", Scene(tag), "Tagged", "a tagged node")
    done("merge:Mapping:end", Scene(mapv, Val("Mapping", mkmap(X("mergemap")))), "Mapping", "a mapping whose << is a mapping")
    done("merge:Sequence:end", Scene(mapv, Val("Sequence", X("mergeseq"))), "Mapping", "a mapping whose << is a sequence")
    fails("merge:Tagged", Scene(mapv, tag), "TaggedInMerge", "<< with a tagged value")
    fails("element:Tagged", Scene(mapv, Val("Sequence", X("mergeseq")), elem=tag), "TaggedInMerge", "<< with a sequence holding a tagged value")
    fails("element:Sequence", Scene(mapv, Val("Sequence", X("mergeseq")), elem=Val("Sequence", X("inner2"))), "SequenceInMergeElement", "<< with a sequence holding a sequence")
    for occ in (False, True):
        o = "occupied" if occ else "new"
        merges(f"merge:Mapping:{o}", Scene(mapv, Val("Mapping", mkmap(X("mergemap"))), live=True, occupied=occ), f"<< with a mapping, {o} key")
        merges(f"element:Mapping:{o}", Scene(mapv, Val("Sequence", X("mergeseq")), live=True, elem=Val("Mapping", mkmap(X("mergemap"))), occupied=occ), f"<< with a sequence of mappings, {o} key")
    # a merged mapping may have merges of its own
    for key, sc, what in (("chained:Mapping", Scene(mapv, Val("Mapping", mkmap(X("mergemap"))), live=True, key=Val("String", S("<<"))), "<< with a mapping that has a << of its own"),
                          ("chained:Sequence", Scene(mapv, Val("Sequence", X("mergeseq")), live=True, elem=Val("Mapping", mkmap(X("mergemap"))), key=Val("String", S("<<"))), "<< with a sequence of mappings that have a << of their own")):
        ev, rs = run_scene(e, sc)
        if not rs:
            ck.undecided(key, "no feasible path")
        for f, p, ch in rs:
            ev.at(ch)
            nested = any(c.kind == "rec" and c.args and ev.ev(c.args[0]) in [x for x in (sc.merge, sc.elem) if x is not None] for c in p.all_calls())
            if nested:
                ck.obl(True, key)
                continue
            kept = [i for i in inserts(ev, p) if i[0] is not None and (i[0] == KEY or ismergekey(i[0]))]
            again = any(c.last.startswith(("push", "extend")) and len(c.args) > 1 and ev.ev(c.args[1]) in [x for x in (VAL, sc.merge, sc.elem, MAPX, mapv) if x is not None] for c in p.all_calls())
            ck.obl(sure(f, False) if kept and p.end == "back" and not again else None, key, f"{what}: the inner << is copied like any other entry and stays unmerged", f"{e.name} {p.span}")
    for key, sc in (("chained:error", Scene(mapv, Val("Mapping", mkmap(X("mergemap"))), nested="Err")), ("chained:error:Sequence", Scene(mapv, Val("Sequence", X("mergeseq")), nested="Err"))):
        ev, rs = run_scene(e, sc)
        for f, p, ch in rs:
            ev.at(ch)
            if any(c.kind == "rec" and c.args and ev.ev(c.args[0]) == sc.merge for c in p.all_calls()):
                v = ev.ev(p.val) if p.end == "return" else None
                ck.obl(sure(f, None if p.end == "return" and v is None else v is not None and v.variant == "Err"), key, "an error in a merge inside the merged value is ignored", f"{e.name} {p.span}")
    # elements after a merged mapping are still merged: the loop goes on without visiting children yet
    ev, rs = run_scene(e, Scene(mapv, Val("Sequence", X("mergeseq")), elem=Val("Mapping", mkmap(X("mergemap")))))
    for f, p, ch in rs:
        ev.at(ch)
        vis = visited(ev, p)
        if p.end == "back":
            ck.obl(sure(f, Adt("View", "values", {"of": MAPX}) not in vis), "element:Mapping:end", "the elements after the first merged mapping are skipped", f"{e.name} {p.span}")
        else:
            v = ev.ev(p.val) if p.end == "return" else X("panic")
            ck.obl(None if v is None else sure(f, False), "element:Mapping:end", f"the elements after a merged mapping are skipped: ends with {v}", f"{e.name} {p.span}")
    # no node left: success
    if any(c.last.startswith("pop") for p in e.paths for c in p.calls()):
        ev, rs = run_scene(e, Scene(None))
        for f, p, ch in rs:
            v = ev.at(ch).ev(p.val) if p.end == "return" else None
            ck.obl(sure(f, None if p.end == "return" and v is None else p.end == "return" and v.variant == "Ok"), "finished", f"after the last node: {p.end} {v}", f"{e.name} {p.span}")
