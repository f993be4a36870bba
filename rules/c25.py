from absval import *
from model import *
import run

WHAT = ("Every operation of Mapping, of its index types, entries and iterators is evaluated for a present and an absent key, an occupied and a vacant entry, an exhausted and a live iterator: its result and its effect on the "
        "underlying ordered map must be those of the equally named ordered-map operation on the same operands.")
ASSUMES = ["indexmap::IndexMap implements the documented ordered-map operations"]

MAP = X("map")
M = Adt("Mapping", None, {"map": MAP})
VAL, KEY = X("val"), X("storedkey")
PAIR = Adt("tuple", None, {"0": KEY, "1": VAL})
FULL = Adt("tuple", None, {"0": I(4, 4, "pos"), "1": KEY, "2": VAL})

# operation -> (effect, what it yields when the key is present)
LOOK = {}
for n in ("get", "get_mut", "index_into", "index_into_mut"):
    LOOK[n] = (None, "val")
for n in ("get_key_value", "get_key_value_mut"):
    LOOK[n] = (None, "pair")
LOOK["get_full"] = LOOK["get_full_mut"] = (None, "full")
LOOK["contains_key"] = LOOK["is_key_into"] = (None, "bool")
LOOK["get_index_of"] = (None, "pos")
for n in ("swap_remove", "remove", "swap_remove_from"):
    LOOK[n] = ("swap", "val")
for n in ("shift_remove", "shift_remove_from"):
    LOOK[n] = ("shift", "val")
for n in ("swap_remove_entry", "remove_entry", "swap_remove_entry_from"):
    LOOK[n] = ("swap", "pair")
LOOK["shift_remove_entry"] = LOOK["shift_remove_entry_from"] = ("shift", "pair")
LOOK["swap_remove_full"], LOOK["shift_remove_full"] = ("swap", "full"), ("shift", "full")
OTHER = {"clear", "insert", "insert_full", "retain", "drain", "pop", "sort_keys", "sort_by", "sort_unstable_keys", "reverse", "truncate", "split_off", "append", "swap_indices", "move_index", "insert_before", "shift_insert", "insert_sorted",
         "swap_remove_index", "shift_remove_index", "extend", "entry", "replace_full", "swap_take"}


def yields(kind, present):
    if kind == "bool":
        return B(present)
    if not present:
        return NONE
    return Some({"val": VAL, "pair": PAIR, "full": FULL, "pos": I(4, 4, "pos")}[kind])


def ismap(v):
    return v == MAP or isinstance(v, Adt) and v.name == "Mapping" and v.fields.get("map") == MAP


def denotes(k, want):
    """abstract key k denotes the index value `want` (a string or a Value)"""
    if k is None:
        return None
    if isinstance(k, Adt) and k.name == "HashLikeValue":
        k = k.fields.get("0")
        return None if k is None else k == want if want.name == "str" else False
    if isinstance(k, Adt) and k.name == "Value" and want.name == "str":
        return k.variant == "String" and (None if k.fields.get("0") is None else k.fields["0"] == want)
    return k == want if isinstance(k, X) else None


def mapop(c):
    return ("IndexMap" in c.name or "private::Sealed" in c.name or c.is_("Index::" + c.last) or "Extend" in c.name)


def effects(ev, p, key):
    """[(effect, operands...)] on the map along path p; None entries are not understood"""
    out = []
    for c in p.all_calls():
        if not mapop(c):
            continue
        av = [ev.ev(a) for a in c.args]
        if c.last in LOOK:
            eff = LOOK[c.last][0]
            ks = [a for a in av if not ismap(a)]
            ok = [ismap(a) for a in av].count(True) == 1
            d = denotes(ks[0], key) if len(ks) == 1 and key is not None else None
            if eff:
                out.append((eff, d if ok else None))
        elif c.last in OTHER:
            out.append((c.last, tuple(av)))
    out += [("store", (ev.ev(v),)) for place, v, span in p.stores()]
    return out


def handlers(present):
    fns = {}
    for n, (eff, kind) in LOOK.items():
        def f(ev, av, at, t, kind=kind):
            return yields(kind, present)
        fns["call:" + n] = fns[n] = f
    return fns


def lookups(ck, R):
    spec = {}
    for t in ("str", "String", "Value"):
        for m, (eff, kind) in (("is_key_into", (None, "bool")), ("index_into", (None, "val")), ("index_into_mut", (None, "val")), ("swap_remove_from", ("swap", "val")), ("swap_remove_entry_from", ("swap", "pair")),
                               ("shift_remove_from", ("shift", "val")), ("shift_remove_entry_from", ("shift", "pair"))):
            spec[f"<{t} as Index>::{m}"] = (eff, kind, 0, 1, X("str") if t != "Value" else X("valuekey"))
            spec[f"<&T as Index>::{m}"] = (eff, kind, 0, 1, X("inner"))
    for m, v in (("contains_key", (None, "bool")), ("get", (None, "val")), ("get_mut", (None, "val")), ("remove", ("swap", "val")), ("remove_entry", ("swap", "pair")), ("swap_remove", ("swap", "val")), ("swap_remove_entry", ("swap", "pair")),
                 ("shift_remove", ("shift", "val")), ("shift_remove_entry", ("shift", "pair"))):
        spec[f"Mapping::{m}"] = v + (1, 0, X("index"))
    for m in ("<Mapping as Index<I>>::index", "<Mapping as IndexMut<I>>::index_mut"):
        spec[m] = (None, "unwrapped", 1, 0, X("index"))
    n = 0
    for name, (eff, kind, ki, mi, key) in spec.items():
        e = ck.need(R, name)
        if not e:
            continue
        n += 1
        for present in (True, False):
            ev, rs = results(e, {e.params[ki][0]: key, e.params[mi][0]: M}, None, handlers(present), ("return", "panic"))
            k = f"{name}:{'present' if present else 'absent'}"
            if kind == "unwrapped":
                judge(ck, k, e, rs, lambda r, p: (p.end == "panic") != present and (not present or (None if r is None else r == VAL)), f"{name} of a {'present' if present else 'missing'} key")
            else:
                want = yields(kind, present)
                judge(ck, k, e, rs, lambda r, p: False if p.end == "panic" else None if r is None else same(r, want), f"{name} of a {'present' if present else 'missing'} key must yield {want}")
            for f, p, r, ch in rs:
                ev.at(ch)
                got = effects(ev, p, key)
                names = [x[0] for x in got]
                ok = names == ([eff] if eff else [])
                ck.obl(sure(f, ok), k + ":effect", f"{name} must {'remove by ' + eff if eff else 'leave the mapping alone'}, it performs {names or 'no removal'}", f"{e.name} {p.span}")
                for x in got:
                    if x[0] == eff and x[0]:
                        ck.obl(sure(f, x[1]), k + ":key", f"{name} acts on another key or mapping", f"{e.name} {p.span}")
                for c in p.all_calls():
                    if mapop(c) and c.last in LOOK and not LOOK[c.last][0]:
                        av = [ev.ev(a) for a in c.args]
                        ks = [a for a in av if not ismap(a)]
                        d = denotes(ks[0], key) if len(ks) == 1 and len(av) == 2 else None
                        ck.obl(sure(f, d), k + ":key", f"{name} looks up {ks}", f"{e.name} {c.span}")
    ck.floor("keyed operations", n, 30)


def same(r, want):
    """r equals want; unknown inside stays unknown"""
    if r is None:
        return None
    if isinstance(r, Adt) and isinstance(want, Adt):
        if r.variant != want.variant:
            return False
        rs = [same(r.fields.get(k), v) for k, v in want.fields.items()]
        return all3(*rs) if rs else True
    if isinstance(r, I) and isinstance(want, I):
        return r == want if r.const is not None or r.src else None
    return r == want


def all3(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def whole(ck, R):
    n = 0
    for m in ("len", "is_empty"):
        e = ck.need(R, f"Mapping::{m}")
        if not e:
            continue
        n += 1
        for lo, hi in ((0, 0), (1, 1), (2, 2 ** 62)):
            L = I(lo, hi, "n")
            fns = {"call:len": lambda ev, av, at, t: L, "call:is_empty": lambda ev, av, at, t: B(hi == 0), "len": lambda ev, av, at, t: L}
            ev, rs = results(e, {e.params[0][0]: M}, None, fns)
            judge(ck, f"Mapping::{m}:{lo}", e, rs, lambda r, p: None if not isinstance(r, I) else (r == L or r.const == lo == hi) if m == "len" else None if r.const is None else bool(r.const) == (hi == 0), f"Mapping::{m} of a mapping of {lo}..{hi} entries")
    for m, args, eff in (("insert", ("k", "v"), "insert"), ("clear", (), "clear"), ("retain", ("keep",), "retain"), ("reserve", ("n",), None), ("shrink_to_fit", (), None), ("capacity", (), None), ("<Mapping as Extend<(Value,Value)>>::extend", ("iter",), "extend")):
        name = m if m.startswith("<") else f"Mapping::{m}"
        e = ck.need(R, name)
        if not e:
            continue
        n += 1
        for present in (True, False):
            res = Some(X("old")) if present else NONE
            fns = {"call:insert": lambda ev, av, at, t: res, "call:insert_full": lambda ev, av, at, t: Adt("tuple", None, {"0": I(4, 4, "pos"), "1": res})}
            env = {e.params[0][0]: M}
            env.update({e.params[i + 1][0]: X(a) for i, a in enumerate(args) if i + 1 < len(e.params)})
            ev, rs = results(e, env, None, fns)
            if m == "insert":
                judge(ck, f"{name}:{present}", e, rs, lambda r, p: same(r, res), "insert must return the value it replaced")
            for f, p, r, ch in rs:
                ev.at(ch)
                got = effects(ev, p, None)
                got = [("insert" if g[0] == "insert_full" else g[0], g[1]) for g in got]
                if eff is None:
                    ck.obl(sure(f, not got), f"{name}:effect", f"{name} must leave the entries alone, it performs {[g[0] for g in got]}", f"{e.name} {p.span}")
                    continue
                if any(g[0] == "entry" for g in got):
                    ck.undecided(f"{name}:effect")
                    continue
                ck.obl(sure(f, [g[0] for g in got] == [eff]), f"{name}:effect", f"{name} must {eff} once, it performs {[g[0] for g in got]}", f"{e.name} {p.span}")
                for g in got:
                    if g[0] == eff:
                        want = (MAP,) + tuple(X(a) for a in args)
                        if m == "retain" and isinstance(g[1][-1], Adt):
                            continue    # a closure around the caller's: not followed
                        ok = all3(*[None if a is None else (ismap(a) if w == MAP else a == w) if isinstance(a, (X, Adt)) else None for a, w in zip(g[1], want)]) if len(g[1]) == len(want) else None
                        ck.obl(sure(f, ok), f"{name}:operands", f"{name} passes {g[1]}", f"{e.name} {p.span}")
    # iterators over the whole map
    views = {"Mapping::iter": "iter", "Mapping::iter_mut": "iter_mut", "Mapping::keys": "keys", "Mapping::values": "values", "Mapping::values_mut": "values_mut", "Mapping::into_keys": "into_keys", "Mapping::into_values": "into_values",
             "<Mapping as IntoIterator>::into_iter": "into_iter", "<&Mapping as IntoIterator>::into_iter": "iter", "<&mut Mapping as IntoIterator>::into_iter": "iter_mut"}
    for name, kind in views.items():
        e = ck.need(R, name)
        if not e:
            continue
        n += 1
        fns = {}
        for v in ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "into_iter"):
            def f(ev, av, at, t, v=v):
                if not av or av[0] is None:
                    return None
                if isinstance(av[0], Adt) and av[0].name == "View":
                    return av[0]
                return Adt("View", v, {"of": MAP if ismap(av[0]) else av[0]})
            fns["call:" + v] = fns[v] = f
        for v in ("rev", "skip", "take", "step_by", "skip_while", "take_while", "filter"):
            fns["call:" + v] = fns[v] = lambda ev, av, at, t: Adt("View", "changed", {})
        ev, rs = results(e, {e.params[0][0]: M}, None, fns)

        def pred(r, p):
            if isinstance(r, Adt) and r.name != "View" and len(r.fields) == 1:
                r = next(iter(r.fields.values()))
            if not isinstance(r, Adt) or r.name != "View":
                return None
            a, b = r.variant, kind
            if a == "into_iter" and b in ("iter", "iter_mut"):
                a = b    # into_iter of a reference
            return a == b and r.fields.get("of") == MAP
        judge(ck, name, e, rs, pred, f"{name} must expose every entry of the map in order")
        for f, p, r, ch in rs:
            got = effects(ev.at(ch), p, None)
            ck.obl(sure(f, not got), name + ":effect", f"{name} changes the mapping: {[g[0] for g in got]}", f"{e.name} {p.span}")
    ck.floor("whole-map operations", n, 17)


def iterators(ck, R):
    es = R.find(lambda x: x.endswith(" as Iterator>::next") or x.endswith(" as DoubleEndedIterator>::next_back"), module="mapping")
    ck.floor("iterator types", len(es), 7)
    for e in es:
        if e.cut or e.error:
            continue
        ck.use(e)
        m = e.name.rsplit("::", 1)[-1]
        pair = not any(x in e.name for x in ("Keys", "Values"))
        for live in (True, False):
            def nx(ev, av, at, c):
                if not live:
                    return NONE
                if c.last != m:
                    return Some(X("wrong"))
                inner = c.selfty + " ".join(c.targs)
                if "Keys" in inner:
                    return Some(KEY)
                if "Values" in inner:
                    return Some(VAL)
                return Some(PAIR)
            fns = {"call:" + x: nx for x in ("next", "next_back", "nth", "last", "nth_back")}
            want = NONE if not live else Some(PAIR if pair else KEY if "Keys" in e.name else VAL)
            ev, rs = results(e, {}, None, fns)
            judge(ck, f"{e.name}:{live}", e, rs, lambda r, p: same(r, want), f"{e.name} must yield each {'entry' if pair else 'item'} of the underlying iterator")
            for f, p, r, ch in rs:
                k = [c.last for c in p.calls() if "Iterator" in c.name and c.last in ("next", "next_back", "nth", "last", "nth_back", "advance_by")]
                ck.obl(sure(f, k == [m]), f"{e.name}:step", f"{e.name} advances by {k}", f"{e.name} {p.span}")
    for e in R.find(lambda x: x.endswith("ExactSizeIterator>::len") or x.endswith("Iterator>::size_hint"), module="mapping"):
        if e.cut or e.error:
            continue
        ck.use(e)
        m = e.name.rsplit("::", 1)[-1]
        h = lambda ev, av, at, t: X("inner " + m)
        fns = {m: h, "call:" + m: h}
        ev, rs = results(e, {}, None, fns)
        judge(ck, e.name, e, rs, lambda r, p: None if r is None else r == X("inner " + m), f"{e.name} must be that of the underlying iterator")


def entries(ck, R):
    n = 0
    occ, vac = X("occupied"), X("vacant")
    O = Adt("Entry", "Occupied", {"0": Adt("OccupiedEntry", None, {"occupied": occ})})
    V = Adt("Entry", "Vacant", {"0": Adt("VacantEntry", None, {"vacant": vac})})

    def fns_():
        out = {}

        def h(name, res):
            def f(ev, av, at, c):
                a = av[0] if av else None
                who = "occ" if a == occ else "vac" if a == vac else None
                return res(who, av) if who else None
            out["call:" + name] = f
        for nm in ("get", "get_mut", "into_mut"):
            h(nm, lambda w, av: VAL)
        h("key", lambda w, av: KEY if w == "occ" else X("newkey"))
        h("into_key", lambda w, av: X("newkey"))
        h("insert", lambda w, av: VAL if w == "occ" else X("inserted"))
        h("swap_remove", lambda w, av: VAL)
        h("shift_remove", lambda w, av: VAL)
        h("remove", lambda w, av: VAL)
        h("swap_remove_entry", lambda w, av: PAIR)
        h("shift_remove_entry", lambda w, av: PAIR)
        h("remove_entry", lambda w, av: PAIR)
        h("or_insert", lambda w, av: None)
        out["call:entry"] = lambda ev, av, at, c: None
        return out

    def steps(ev, p):
        out = []
        for c in p.all_calls():
            av = [ev.ev(a) for a in c.args]
            if c.name.startswith("callable:"):
                out.append(("call", av[1:]))
            elif av and av[0] in (occ, vac) and "Entry" in c.name and c.last in ("insert", "swap_remove", "shift_remove", "remove", "swap_remove_entry", "shift_remove_entry", "remove_entry", "insert_entry", "insert_sorted", "shift_insert"):
                out.append((("vac." if av[0] == vac else "occ.") + c.last, av[1:]))
        out += [("occ.insert" if ev.ev(place) == VAL and "Occupied" in ev.e.name else "store", [ev.ev(v)]) for place, v, span in p.stores()]
        return out
    NORM = {"occ.remove": "occ.swap_remove", "occ.remove_entry": "occ.swap_remove_entry"}
    spec = [("Entry::key", O, (), KEY, []), ("Entry::key", V, (), X("newkey"), []),
            ("Entry::or_insert", O, ("d",), VAL, []), ("Entry::or_insert", V, ("d",), X("inserted"), [("vac.insert", [X("d")])]),
            ("Entry::or_insert_with", O, ("f",), VAL, []), ("Entry::or_insert_with", V, ("f",), X("inserted"), [("call", []), ("vac.insert", [X("made")])]),
            ("Entry::and_modify", O, ("f",), O, [("call", [VAL])]), ("Entry::and_modify", V, ("f",), V, []),
            ("OccupiedEntry::key", O.fields["0"], (), KEY, []), ("OccupiedEntry::get", O.fields["0"], (), VAL, []), ("OccupiedEntry::get_mut", O.fields["0"], (), VAL, []), ("OccupiedEntry::into_mut", O.fields["0"], (), VAL, []),
            ("OccupiedEntry::insert", O.fields["0"], ("d",), VAL, [("occ.insert", [X("d")])]), ("OccupiedEntry::remove", O.fields["0"], (), VAL, [("occ.swap_remove", [])]), ("OccupiedEntry::remove_entry", O.fields["0"], (), PAIR, [("occ.swap_remove_entry", [])]),
            ("VacantEntry::key", V.fields["0"], (), X("newkey"), []), ("VacantEntry::into_key", V.fields["0"], (), X("newkey"), []), ("VacantEntry::insert", V.fields["0"], ("d",), X("inserted"), [("vac.insert", [X("d")])])]
    for name, me, args, want, eff in spec:
        e = ck.need(R, name)
        if not e:
            continue
        n += 1
        fns = fns_()
        env = {e.params[0][0]: me}
        env.update({e.params[i + 1][0]: X(a) for i, a in enumerate(args)})
        # results of calling the user's function
        for p in e.paths:
            for c in p.calls():
                if c.name.startswith("callable:"):
                    env[c.ret] = X("made")
        # a modified value is still the value at that place
        for t, k in e.terms.items():
            if k[0] == "y" and k[1] == "havoc":
                b = e.terms.get(k[3])
                if b and b[0] == "f" and b[3] in ("occupied", "vacant"):
                    env[t] = occ if b[3] == "occupied" else vac
        ev, rs = results(e, env, None, fns)
        k = f"{name}:{me.variant or ''}"
        judge(ck, k, e, rs, lambda r, p: same(r, want), f"{name} on {'an occupied' if me in (O, O.fields['0']) else 'a vacant'} entry must yield {want}")
        for f, p, r, ch in rs:
            got = [(NORM.get(a, a), b) for a, b in steps(ev.at(ch), p)]
            names = [g[0] for g in got]
            ok = names == [x[0] for x in eff]
            ck.obl(sure(f, ok), k + ":effect", f"{name} must perform {[x[0] for x in eff] or 'no change'}, it performs {names or 'none'}", f"{e.name} {p.span}")
            if ok:
                for g, w in zip(got, eff):
                    for a, b in zip(g[1], w[1]):
                        if isinstance(a, X):
                            ck.obl(sure(f, a == b), k + ":operand", f"{name} passes {a} to {g[0]}", f"{e.name} {p.span}")
    e = ck.need(R, "Mapping::entry")
    if e:
        n += 1
        for kind in ("Occupied", "Vacant"):
            fns = {"call:entry": lambda ev, av, at, c: Adt("Entry", kind, {"0": occ if kind == "Occupied" else vac}) if ismap(av[0]) and av[1] == X("k") else X("wrong")}
            ev, rs = results(e, {e.params[0][0]: M, e.params[1][0]: X("k")}, None, fns)
            judge(ck, f"Mapping::entry:{kind}", e, rs, lambda r, p: same(r, O if kind == "Occupied" else V), f"entry() of a key whose place is {kind}")
    ck.floor("entry operations", n, 19)


def serialize(ck, R):
    """writing a mapping visits every entry once, in order, key with its value"""
    e = ck.need(R, "<Mapping as Serialize>::serialize")
    if not e:
        return
    ITEM = Some(PAIR)
    backs = 0
    for live in (True, False):
        fns = {"call:next": lambda ev, av, at, c: ITEM if live else NONE}
        ev = Ev(e, {e.params[0][0]: M}, None, fns)
        for p in e.paths:
            if p.end not in ("back", "return") or ev.feasible(p) == "no":
                continue
            nx = [c for c in p.calls() if c.last == "next"]
            apps = {base(e.terms[t][1])[1] + " " + e.terms[t][1] for f in p.facts for t in e.subterms(f) if e.terms[t][0] == "a" and base(e.terms[t][1])[1] in ("next", "next_back", "nth", "rev", "skip", "take", "filter", "step_by")}
            w = [c for c in p.calls() if c.last in ("serialize_entry", "serialize_key", "serialize_value")]
            failed = any(p.variants(c.ret) == {"Err"} for c in p.calls())
            if p.end == "back":
                backs += 1
                if any("Rev<" in a or not a.startswith("next ") for a in apps):
                    ck.violation("Mapping::serialize:order", "entries are not serialized in their order", f"{e.name} {p.span}")
                if not nx:
                    ck.undecided("Mapping::serialize", "loop without an iterator")
                    continue
                src = [c for c in p.calls() if c.last in ("rev", "skip", "take", "filter", "step_by", "next_back", "nth")] or any(base(e.terms[t][1])[1] in ("rev", "skip", "take", "filter", "step_by") for c in nx for t in e.subterms(c.args[0]) if e.terms[t][0] == "a") or "Rev<" in nx[0].selfty + " ".join(nx[0].targs)
                ck.obl(not src, "Mapping::serialize:order", "entries are not serialized in their order", f"{e.name} {p.span}")
                if live:
                    args = [ev.ev(a) for c in w for a in c.args[1:]]
                    ck.obl(None if any(a is None for a in args) else args == [KEY, VAL], "Mapping::serialize:entry", f"an entry is serialized as {args}", f"{e.name} {p.span}")
            elif live and nx and not failed and not any(c.last == "end" for c in p.calls()):
                ck.undecided("Mapping::serialize", "returns early")
    if not backs:
        dele = [c for p in e.paths for c in p.calls() if c.last in ("collect_map", "serialize")]
        if dele:
            ck.undecided("Mapping::serialize", "delegated")
    for p in e.paths:
        if p.end != "return":
            continue
        sm = [c for c in p.calls() if c.last == "serialize_map"]
        for c in sm:
            v = e.terms[e.strip(c.args[1])]
            if v[0] == "A" and v[2] == "Some":
                cl = e.call_of(v[3][0])
                kk = e.terms[v[3][0]]
                ck.obl(True if cl is not None and cl.last == "len" else False if kk[0] == "i" or kk[0] == "b" else None, "Mapping::serialize:len", f"the announced length is {e.show(v[3][0])}", f"{e.name} {c.span}")


def check(ck):
    R = run.analyse(dict(entries=["mapping|<*", "mapping|Mapping*", "mapping|Entry*", "mapping|OccupiedEntry*", "mapping|VacantEntry*"], opaque=["*iter_cmp_by*", "*partial_cmp::total_cmp*"], max_paths=2000))
    lookups(ck, R)
    whole(ck, R)
    iterators(ck, R)
    entries(ck, R)
    serialize(ck, R)
