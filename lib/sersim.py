"""Drives the text serializer's methods (their extracted paths) through abstract histories of serde calls: the serializer's
state is an abstract value, the emitter an ordered log of the events handed to it, and nested values are abstract trees."""
from absval import *
from sim import L, M, FNS
from scalar import STR_FNS
from destream import error_kind
import run

SER_GROUP = dict(entries=["ser|<&mut Serializer<W> as *>*", "ser|Serializer<W>::*", "ser|to_*"],
                 opaque=["*Emitter::emit", "*Emitter::flush", "*Emitter::new", "*Emitter::into_inner", "*as Serializer>::serialize_str", "*check_for_tag"], max_paths=8000)


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


class Fail(Exception):
    def __init__(self, kind, state):
        self.kind, self.state = kind, state


OK = Adt("Result", "Ok", {"0": Adt("tuple", None, {})})


def _utf8(ev, av, at, t):
    if av and isinstance(av[0], I) and av[0].const is not None:
        return S(chr(av[0].const))


def strip(v):
    """a value with the styles of scalars left out"""
    if isinstance(v, Adt):
        return Adt(v.name, v.variant, {n: (X("style") if isinstance(x, Adt) and x.name == "ScalarStyle" else strip(x)) for n, x in v.fields.items()})
    if isinstance(v, L):
        return L([strip(x) for x in v.xs])
    return v


class SerSim:
    def __init__(self, R, module="ser"):
        self.R = R
        self.by = {e.name: e for e in R.entries if e.module == module}
        self.methods = {}
        for n, e in self.by.items():
            if n.startswith("<&mut ") and " as " in n:
                t, m = n.rsplit(">::", 1)
                self.methods[t.rsplit(" as ", 1)[1], m] = e
        self.memo = {}
        self.trees = {}
        self.transitions = 0
        self.seen = {}
        fns = dict(FNS)
        fns.update(STR_FNS)
        fns.update({"encode_utf8": _utf8, "call:encode_utf8": lambda ev, av, a, c: _utf8(ev, av, a, c.ret), "to_string": self._display, "call:to_string": lambda ev, av, a, c: self._display(ev, av, a, c.ret), "call:check_for_tag": self._tag,
                    "call:emit": lambda ev, av, a, c: OK, "havoc:emit": self._emit,
                    "call:serialize": self._nested, "havoc:serialize": self._nested_state, "havoc*": self._other_state})
        for e in self.by.values():
            last = e.name.rsplit("::", 1)[-1]
            fns.setdefault("call:" + last, self._own)
            fns.setdefault("havoc:" + last, self._own_state)
        self.fns = fns

    # ---- hooks
    def _display(self, ev, av, at, t):
        if av and isinstance(av[0], I) and av[0].const is not None:
            return S(chr(av[0].const) if ev.e.ty(at[0]) in ("char", "&char") else str(av[0].const))
        if av and isinstance(av[0], X) and av[0].name in self.trees and self.trees[av[0].name][0] == "text":
            return S(self.trees[av[0].name][1])

    def _tag(self, ev, av, at, c):
        s = self._display(ev, av, at, c.ret)
        if s is None and av and isinstance(av[0], S):
            s = av[0]
        if s is None:
            return None
        return Adt("MaybeTag", "Tag" if s.s.startswith("!") and len(s.s) > 1 else "NotTag", {"0": s})

    def _emit(self, ev, old, c, t):
        if isinstance(old, L):
            return L(old.xs + (ev.ev(c.args[1]),))

    def _callee(self, c):
        return self.by.get(c.name)

    def _own(self, ev, av, at, c):
        e = self._callee(c)
        if e is None:
            return None
        r = self.call(e, av)
        return r[0] if r else None

    def _own_state(self, ev, old, c, t):
        e = self._callee(c)
        if e is None:
            return self._other_state(ev, old, c, t)
        r = self.call(e, [ev.ev(x) for x in c.args])
        return r[1] if r else None

    def _nested(self, ev, av, at, c):
        if len(av) == 2 and isinstance(av[0], X) and av[0].name in self.trees and self.is_state(av[1]):
            r = self.tree(self.trees[av[0].name], av[1])
            return r[0] if r else None

    def _nested_state(self, ev, old, c, t):
        av = [ev.ev(x) for x in c.args]
        if len(av) == 2 and isinstance(av[0], X) and av[0].name in self.trees and self.is_state(av[1]) and self.is_state(old):
            r = self.tree(self.trees[av[0].name], av[1])
            return r[1] if r else None

    def _other_state(self, ev, old, c, t):
        return None

    def is_state(self, v):
        return isinstance(v, Adt) and any(isinstance(x, L) for x in v.fields.values())

    # ---- state
    def initial(self):
        e = self.by.get("Serializer<W>::new")
        if e is None:
            raise Unknown("no constructor")
        ev = Ev(e, {}, fns=self.fns)
        for p in e.paths:
            if p.end != "return" or not p.val:
                continue
            for t in e.subterms(p.val):
                if e.terms[t][0] == "A" and (e.ty(t) or "").startswith("Serializer<"):
                    v = ev.ev(t)
                    fs = {}
                    for n, x in e.fields(t).items():
                        fs[n] = L() if "Emitter" in (e.ty(x) or "") else v.fields.get(n) if v.fields.get(n) is not None else X(n)
                    if any(isinstance(x, L) for x in fs.values()):
                        return Adt(v.name, None, fs)
        raise Unknown("the state of a new serializer")

    def log(self, st):
        return next(x for x in st.fields.values() if isinstance(x, L))

    def cleared(self, st):
        return Adt(st.name, st.variant, {n: L() if isinstance(x, L) else x for n, x in st.fields.items()})

    def replay(self, st, before):
        """the state after a call, with the events emitted before it put back"""
        return Adt(st.name, st.variant, {n: L(before.xs + x.xs) if isinstance(x, L) else x for n, x in st.fields.items()})

    # ---- one method
    def call(self, e, args):
        """-> (result, state after), raising Unknown or Panic"""
        st = args[0]
        if not self.is_state(st):
            raise Unknown(f"{e.name}: the state of its receiver")
        before = self.log(st)
        key = (e.name, repr(self.cleared(st)), repr(args[1:]))
        if key not in self.memo:
            self.memo[key] = None
            try:
                self.memo[key] = self._call(e, [self.cleared(st)] + list(args[1:]))
            except (Unknown, Panic) as x:
                self.memo[key] = x
        r = self.memo[key]
        if r is None:
            raise Unknown(f"{e.name}: unbounded recursion")
        if isinstance(r, Exception):
            raise r
        return r[0], self.replay(r[1], before)

    def _call(self, e, args):
        env = {}
        for (t, ty), v in zip(e.params, args):
            if v is not None:
                env[t] = v
        ev = Ev(e, env, fns=self.fns)
        outs = {}
        self.transitions += 1
        self.seen.setdefault(e.name, set()).add(repr(self.cleared(args[0])))
        if not hasattr(e, "_tree"):
            e._tree = Paths(e, e.paths)
        for p in e._tree.live(ev):
            try:
                f = ev.feasible(p)
            except Unknown as x:
                return x
            except Panic as x:
                return x
            if f == "no":
                continue
            if p.end == "panic" and f == "yes":
                return Panic(f"{e.name} panics: {p.val[0] if p.val else ''}")
            if p.end == "panic":
                continue
            if p.end != "return":
                return Unknown(f"{e.name}: path ends with {p.end}")
            res = ev.ev(p.val)
            s1 = self.after(e, ev, p, args[0])
            outs.setdefault(repr((strip(res) if res is not None else None, strip(s1) if s1 is not None else None)), []).append((res, s1, f))
        if len(outs) != 1:
            return Unknown(f"{e.name}: {len(outs)} outcomes in state {self.cleared(args[0])!r}")
        res, s1, f = next(iter(outs.values()))[0]
        if len(next(iter(outs.values()))) > 1:
            s1 = strip(s1)
        if not isinstance(s1, Adt) or not self.is_state(s1) or any(x is None for x in s1.fields.values()) or not isinstance(res, Adt):
            return Unknown(f"{e.name}: state afterwards {s1!r}, result {res!r}")
        return res, s1

    def after(self, e, ev, p, old):
        if 0 in p.out:
            v = ev.ev(p.out[0])
            if self.is_state(v):
                return v
            return None
        p0 = e.params[0][0]
        for q, t in p.heap.items():
            x = q
            while x in e.terms and e.terms[x][0] in ("d", "v"):
                x = e.terms[x][1]
            if x == p0:
                return ev.ev(t)
        return old

    # ---- protocol
    def m(self, trait, name, *args):
        e = self.methods.get((trait, name))
        if e is None:
            raise Unknown(f"no {trait}::{name}")
        r = self.call(e, list(args))
        if r[0].variant == "Err":
            raise Fail(error_kind(r[0].fields.get("0")), r[1])
        return r

    def ref(self, t):
        n = "v" + repr(t)
        self.trees[n] = t
        return X(n)

    def tree(self, t, st):
        """what `value.serialize(serializer)` does: (result, state)"""
        try:
            return OK, self.drive(t, st)
        except Fail as f:
            return Adt("Result", "Err", {"0": X(f.kind)}), f.state

    def drive(self, t, st):
        k = t[0]
        Z, N = I(0, 0), S("T")
        if k == "call":
            return self.m("Serializer", t[1], st, *t[2])[1]
        if k == "str":
            return self.m("Serializer", "serialize_str", st, S(t[1]))[1]
        if k == "text":
            return self.m("Serializer", "collect_str", st, self.ref(t))[1]
        if k == "unit":
            return self.m("Serializer", "serialize_unit", st)[1]
        if k == "some":
            return self.m("Serializer", "serialize_some", st, self.ref(t[1]))[1]
        if k == "nts":
            return self.m("Serializer", "serialize_newtype_struct", st, N, self.ref(t[1]))[1]
        if k == "ntv":
            return self.m("Serializer", "serialize_newtype_variant", st, N, Z, S(t[1]), self.ref(t[2]))[1]
        if k == "uv":
            return self.m("Serializer", "serialize_unit_variant", st, N, Z, S(t[1]))[1]
        if k == "seq":
            n = I(len(t[2]), len(t[2]))
            tr, fn, el = {"seq": ("SerializeSeq", "serialize_seq", "serialize_element"), "tuple": ("SerializeTuple", "serialize_tuple", "serialize_element"),
                          "ts": ("SerializeTupleStruct", "serialize_tuple_struct", "serialize_field")}[t[1]]
            a = [Some(n) if len(t) < 4 or t[3] else NONE] if t[1] == "seq" else [n] if t[1] == "tuple" else [N, n]
            st = self.m("Serializer", fn, st, *a)[1]
            for x in t[2]:
                st = self.m(tr, el, st, self.ref(x))[1]
            return self.m(tr, "end", st)[1]
        if k == "tv":
            n = I(len(t[2]), len(t[2]))
            st = self.m("Serializer", "serialize_tuple_variant", st, N, Z, S(t[1]), n)[1]
            for x in t[2]:
                st = self.m("SerializeTupleVariant", "serialize_field", st, self.ref(x))[1]
            return self.m("SerializeTupleVariant", "end", st)[1]
        if k in ("struct", "sv"):
            kv = t[-1]
            n = I(len(kv), len(kv))
            if k == "struct":
                st, tr = self.m("Serializer", "serialize_struct", st, N, n)[1], "SerializeStruct"
            else:
                st, tr = self.m("Serializer", "serialize_struct_variant", st, N, Z, S(t[1]), n)[1], "SerializeStructVariant"
            for a, x in kv:
                st = self.m(tr, "serialize_field", st, S(a), self.ref(x))[1]
            return self.m(tr, "end", st)[1]
        if k == "map":
            n = I(len(t[3]), len(t[3])) if t[1] is True else I(t[1], t[1])
            st = self.m("Serializer", "serialize_map", st, Some(n) if t[1] else NONE)[1]
            for a, x in t[3]:
                if t[2] == "entry":
                    st = self.m("SerializeMap", "serialize_entry", st, self.ref(a), self.ref(x))[1]
                else:
                    st = self.m("SerializeMap", "serialize_key", st, self.ref(a))[1]
                    st = self.m("SerializeMap", "serialize_value", st, self.ref(x))[1]
            return self.m("SerializeMap", "end", st)[1]
        raise Unknown(k)

    def events(self, st):
        """the log in a readable form: ('scalar', tag, value, style) ('seq', tag) ('map', tag) ('/seq',) ('/map',) ('doc',) ('/doc',)"""
        out = []
        for x in self.log(st).xs:
            v = x.variant if isinstance(x, Adt) else None
            p = x.fields.get("0") if isinstance(x, Adt) else None
            tag = None
            if isinstance(p, Adt):
                g = p.fields.get("tag")
                if not isinstance(g, Adt):
                    tag = "?"
                elif g.variant == "Some":
                    tag = g.fields["0"].s if isinstance(g.fields["0"], S) else "?"
            if v == "Scalar" and isinstance(p, Adt):
                s, y = p.fields.get("value"), p.fields.get("style")
                out.append(("scalar", tag, s.s if isinstance(s, S) else s, y.variant if isinstance(y, Adt) else None))
            elif v in ("SequenceStart", "MappingStart"):
                out.append(("seq" if v[0] == "S" else "map", tag))
            elif v in ("SequenceEnd", "MappingEnd", "DocumentStart", "DocumentEnd"):
                out.append(({"SequenceEnd": "/seq", "MappingEnd": "/map", "DocumentStart": "doc", "DocumentEnd": "/doc"}[v],))
            else:
                raise Unknown(f"event {x!r}")
        return out


# ---- what the documentation says
class Nested(Exception):
    pass


def bang(n):
    return n if n.startswith("!") else "!" + n


def expect(t, tag=None):
    """events of a value: ('scalar', tag, value) ...; raises Nested when two tags would meet"""
    k = t[0]
    if k == "call":
        return [("scalar", tag, t[3] if len(t) > 3 else None)]
    if k in ("str", "text"):
        return [("scalar", tag, t[1])]
    if k == "unit":
        return [("scalar", tag, "null")]
    if k in ("some", "nts"):
        return expect(t[1], tag)
    if k == "ntv":
        if tag is not None:
            raise Nested
        return expect(t[2], bang(t[1]))
    if k == "uv":
        return [("scalar", tag, t[1])]
    if k in ("seq", "tv"):
        if k == "tv":
            if tag is not None:
                raise Nested
            tag = bang(t[1])
        return [("seq", tag)] + [x for c in t[2] for x in expect(c)] + [("/seq",)]
    if k in ("struct", "sv"):
        if k == "sv":
            if tag is not None:
                raise Nested
            tag = bang(t[1])
        return [("map", tag)] + [x for a, c in t[-1] for x in [("scalar", None, a)] + expect(c)] + [("/map",)]
    if k == "map":
        if t[1] is True and len(t[3]) == 1 and t[2] == "entry":
            d = t[3][0][0]
            while d[0] in ("some", "nts"):
                d = d[1]
            if d[0] == "text" and d[1].startswith("!") and len(d[1]) > 1:
                if tag is not None:
                    raise Nested
                return expect(t[3][0][1], d[1])
        return [("map", tag)] + [x for a, c in t[3] for x in expect(a) + expect(c)] + [("/map",)]
    raise KeyError(k)
