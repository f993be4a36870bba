"""Drives implementations of serde's Serializer traits (their extracted paths) through abstract histories of serde calls.
Serializers are abstract values; a value being serialized is an abstract tree (see sertrees)."""
from absval import *
from sim import L, M, FNS
from scalar import STR_FNS
from destream import error_kind

COMPOUND = ("SerializeSeq", "SerializeTuple", "SerializeTupleStruct", "SerializeTupleVariant", "SerializeMap", "SerializeStruct", "SerializeStructVariant")


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


def Ok(v):
    return Adt("Result", "Ok", {"0": v})


def Err(v):
    return Adt("Result", "Err", {"0": v})


UNIT = Adt("tuple", None, {})
N, Z = S("T"), I(0, 0)


def short(n):
    return n.partition("<")[0].replace("&mut ", "").replace("&", "").rpartition("::")[2]


class Hist:
    def __init__(self, entries, fns=None, more=()):
        self.methods, self.impls = {}, {}
        for e in entries:
            if e.name.startswith("<") and " as " in e.name and ">::" in e.name:
                head, m = e.name.rsplit(">::", 1)
                t, tr = head[1:].rsplit(" as ", 1)
                self.methods[short(t), tr.partition("<")[0].rpartition("::")[2], m] = e
        self.trees, self.memo, self.seen = {}, {}, set()
        self.depth = self.transitions = 0
        f = dict(FNS)
        f.update(STR_FNS)
        hooks = {"serialize": self._serialize, "to_string": self._display, "to_owned": self._same, "into": self._same, "from": self._same, "check_for_tag": self._tag, "take": self._take, "unwrap_unchecked": None}
        for n, h in hooks.items():
            if h:
                f["call:" + n] = lambda ev, av, a, c, h=h: h(ev, av, a, c.ret)
                if n not in f:
                    f[n] = h
        names = {m for _, _, m in self.methods} | {"serialize_" + x for x in ("bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str bytes unit none some unit_struct unit_variant newtype_struct newtype_variant seq tuple tuple_struct tuple_variant map "
                                                                           "struct struct_variant element field key value entry").split()} | set(more) | {"collect_str", "end", "collect_seq", "collect_map"}
        for n in names - {"serialize"}:
            f["call:" + n] = self._trait
            f["havoc:" + n] = self._trait_state
        f.update(fns or {})
        self.fns = f

    # ---- hooks
    def _same(self, ev, av, at, t):
        if len(av) == 1 and isinstance(av[0], (S, I, F)):
            return av[0]

    def _display(self, ev, av, at, t):
        v = av[0] if av else None
        if isinstance(v, I) and v.const is not None:
            return S(chr(v.const) if ev.e.ty(at[0]) in ("char", "&char") else str(v.const))
        if isinstance(v, S):
            return v
        if isinstance(v, X) and v.name in self.trees and self.trees[v.name][0] == "text":
            return S(self.trees[v.name][1])

    def _tag(self, ev, av, at, t):
        s = self._display(ev, av, at, t)
        if s is not None:
            return Adt("MaybeTag", "Tag" if s.s.startswith("!") and len(s.s) > 1 else "NotTag", {"0": s})

    def _take(self, ev, av, at, t):
        return None

    def _serialize(self, ev, av, at, t):
        if len(av) == 2 and av[0] is not None and av[1] is not None:
            return self.ser_value(av[0], av[1])

    def ser_value(self, v, ser):
        """`v.serialize(ser)`: the result, or None"""
        x = self.deref(v)
        if x is not None:
            return self.tree(x, ser)
        if isinstance(v, Adt) and (short(v.name), "Serialize", "serialize") in self.methods:
            return self.m(v, "Serialize", "serialize", ser)[0]
        return None

    def deref(self, v):
        if isinstance(v, X) and v.name in self.trees:
            return self.trees[v.name]
        if isinstance(v, S):
            return ("str", v.s)
        return None

    def _trait(self, ev, av, at, c):
        tr = c.name.rpartition("::")[0].rpartition("::")[2].partition("<")[0]
        r = self.dispatch(tr, c.last, av)
        return r[0] if r else None

    def _trait_state(self, ev, old, c, t):
        tr = c.name.rpartition("::")[0].rpartition("::")[2].partition("<")[0]
        av = [ev.ev(x) for x in c.args]
        if av and repr(av[0]) == repr(old):
            r = self.dispatch(tr, c.last, av)
            return r[1] if r else None

    def dispatch(self, tr, name, av):
        if av and isinstance(av[0], Adt) and ((short(av[0].name), tr, name) in self.methods or self.known(av[0], tr)):
            return self.m(av[0], tr, name, *av[1:])

    def known(self, recv, tr):
        """whether calls of this trait on a value are answered by the history itself"""
        return any(t == short(recv.name) and x == tr for t, x, _ in self.methods)

    # ---- one method
    def m(self, recv, tr, name, *args):
        """-> (result, receiver afterwards)"""
        r = self.foreign(recv, tr, name, args)
        if r is not None:
            return r
        if not isinstance(recv, Adt):
            raise Unknown(f"{tr}::{name} of {recv!r}")
        e = self.methods.get((short(recv.name), tr, name))
        if e is None:
            if name == "serialize_entry":
                r, s = self.m(recv, tr, "serialize_key", args[0])
                return (r, s) if r.variant == "Err" else self.m(s, tr, "serialize_value", args[1])
            if name == "collect_str":
                return self.m(recv, tr, "serialize_str", S(self.deref(args[0])[1]))
            if name in ("serialize_i128", "serialize_u128", "deserialize_i128", "deserialize_u128"):
                return Err(X("error")), recv  # serde's default: not supported
            raise Unknown(f"{recv.name} has no {tr}::{name}")
        key = (e.name, repr(recv), repr(args))
        if key not in self.memo:
            self.memo[key] = Unknown(f"{e.name}: unbounded recursion")
            self.depth += 1
            try:
                if self.depth > 60:
                    raise Unknown("too deep")
                self.memo[key] = self._call(e, [recv] + list(args))
            except (Unknown, Panic) as x:
                self.memo[key] = x
            finally:
                self.depth -= 1
        r = self.memo[key]
        if isinstance(r, Exception):
            raise r
        return r

    def foreign(self, recv, tr, name, args):
        return None

    def _call(self, e, args):
        env = {t: v for (t, ty), v in zip(e.params, args) if v is not None}
        if e.error or e.cut:
            raise Unknown(f"{e.name}: analysis cut")
        ev = Ev(e, env, fns=self.fns)
        self.transitions += 1
        self.seen.add(e)
        if not hasattr(e, "_tree"):
            e._tree = Paths(e, e.paths)
        outs, stuck = {}, None
        for p in e._tree.live(ev):
            f = ev.feasible(p)
            if f == "no":
                continue
            if p.end == "panic":
                if f == "yes":
                    raise Panic(f"{e.name} panics: {p.val[0] if p.val else ''}")
                stuck = stuck or f"{e.name}: may panic"
                continue
            if p.end != "return":
                raise Unknown(f"{e.name}: path ends with {p.end}")
            res = ev.ev(p.val)
            st = ev.ev(p.out[0]) if 0 in p.out else args[0]
            outs.setdefault(repr((res, st)), (res, st))
        if len(outs) != 1:
            raise Unknown(f"{e.name}: {len(outs)} outcomes in state {args[0]!r}" + (f"; {stuck}" if stuck else ""))
        res, st = next(iter(outs.values()))
        if not isinstance(res, Adt) or res.variant not in ("Ok", "Err") or st is None:
            raise Unknown(f"{e.name}: result {res!r}, receiver afterwards {st!r}")
        return res, st

    # ---- values
    def ref(self, t):
        n = "v" + repr(t)
        self.trees[n] = t
        return X(n)

    def tree(self, t, ser):
        """what `value.serialize(serializer)` gives"""
        k = t[0]
        one = lambda n, *a: self.m(ser, "Serializer", n, *a)[0]
        if k == "call":
            return one(t[1], *t[2])
        if k == "str":
            return one("serialize_str", S(t[1]))
        if k == "text":
            return one("collect_str", self.ref(t))
        if k == "unit":
            return one("serialize_unit")
        if k == "some":
            return one("serialize_some", self.ref(t[1]))
        if k == "nts":
            return one("serialize_newtype_struct", N, self.ref(t[1]))
        if k == "ntv":
            return one("serialize_newtype_variant", N, Z, S(t[1]), self.ref(t[2]))
        if k == "uv":
            return one("serialize_unit_variant", N, Z, S(t[1]))
        if k == "seq":
            n = I(len(t[2]), len(t[2]))
            tr, fn, el = {"seq": ("SerializeSeq", "serialize_seq", "serialize_element"), "tuple": ("SerializeTuple", "serialize_tuple", "serialize_element"),
                          "ts": ("SerializeTupleStruct", "serialize_tuple_struct", "serialize_field")}[t[1]]
            a = [Some(n) if len(t) < 4 or t[3] else NONE] if t[1] == "seq" else [n] if t[1] == "tuple" else [N, n]
            steps = [(el, [self.ref(x)]) for x in t[2]]
        elif k == "tv":
            tr, fn, a = "SerializeTupleVariant", "serialize_tuple_variant", [N, Z, S(t[1]), I(len(t[2]), len(t[2]))]
            steps = [("serialize_field", [self.ref(x)]) for x in t[2]]
        elif k in ("struct", "sv"):
            n = I(len(t[-1]), len(t[-1]))
            tr, fn, a = ("SerializeStruct", "serialize_struct", [N, n]) if k == "struct" else ("SerializeStructVariant", "serialize_struct_variant", [N, Z, S(t[1]), n])
            steps = [("serialize_field", [S(f), self.ref(x)]) for f, x in t[-1]]
        elif k == "map":
            n = I(len(t[3]), len(t[3])) if t[1] is True else I(t[1], t[1])
            tr, fn, a = "SerializeMap", "serialize_map", [Some(n) if t[1] else NONE]
            steps = []
            for x, y in t[3]:
                steps += [("serialize_entry", [self.ref(x), self.ref(y)])] if t[2] == "entry" or t[2] == "mix" and not steps else [("serialize_key", [self.ref(x)]), ("serialize_value", [self.ref(y)])]
        else:
            raise Unknown(k)
        r = one(fn, *a)
        if r.variant == "Err":
            return r
        st = r.fields["0"]
        for n, av in steps:
            r, st = self.m(st, tr, n, *av)
            if r.variant == "Err":
                return r
        return self.m(st, tr, "end")[0]
