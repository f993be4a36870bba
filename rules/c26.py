from serhist import *
from sertrees import *
from rules import c27
from rules.c27 import ValueHist, reading, V, Empty
import run

WHAT = ("Both modules are driven, on the extracted paths of all their trait impls, through abstract serde histories.  Writing: every value shape nested to depth three goes through the wrapper into a recording serializer, and the recorded calls are compared with those the untransformed value "
        "makes once each enum variant (the outermost, or every one) is replaced by a map of one entry.  Reading: abstract documents are read as types of every serde shape through the wrapper from a self-describing deserializer, and the callbacks the user's code sees, the requests the deserializer gets and the outcome are compared with the documented representation.")
ASSUMES = ["callers follow serde's protocol and stop after the first error", "the wrapped deserializer is self-describing, as YAML is", "a Value is serialized as itself (C27)"]
GROUP = dict(entries=["value::ser|*", "value::ser::*|*", "with::*|*"], opaque=["*Mapping::insert", "value::to_value", "*check_for_tag", "*Tag::new", "*Mapping::new", "*Mapping::with_capacity", "*untag_ref"], max_paths=3000)
PRIMS = "bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf".split()
DE_METHODS = ["deserialize_" + x for x in PRIMS + "any option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any".split()]
VISITS = ["visit_" + x for x in PRIMS + "borrowed_str borrowed_bytes none some unit newtype_struct seq map enum".split()]
ACCESS = "next_element_seed next_element next_key_seed next_value_seed next_key next_value next_entry_seed next_entry variant_seed variant unit_variant newtype_variant_seed newtype_variant tuple_variant struct_variant size_hint".split()
FOREIGN = {"Rec": ("Serializer",), "RecC": COMPOUND, "Doc": ("Deserializer",), "SeqDoc": ("SeqAccess",), "MapDoc": ("MapAccess",), "VarDoc": ("EnumAccess", "VariantAccess"), "Name": ("EnumAccess", "VariantAccess"), "Ty": ("Visitor",), "Seed": ("DeserializeSeed",)}
REC = Adt("Rec", None, {})
ERR = Err(X("error"))


class Box(X):
    """an abstract value that stands for a Python one"""
    def __init__(self, v):
        X.__init__(self, repr(v))
        self.v = v


def obj(name, v, i=0):
    return Adt(name, None, {"v": Box(v), "i": I(i, i)})


class WithHist(ValueHist):
    def __init__(self, entries):
        de = {"call:" + n: self._trait for n in ("deserialize",)}
        de.update({"havoc:deserialize": self._trait_state, "call:new": self._new2, "call:with_capacity": self._new2, "call:custom": lambda ev, av, a, c: X("error"), "call:invalid_value": lambda ev, av, a, c: X("error"), "call:invalid_type": lambda ev, av, a, c: X("error"), "call:invalid_length": lambda ev, av, a, c: X("error")})
        ValueHist.__init__(self, entries, de, DE_METHODS + VISITS + ACCESS)

    def _new2(self, ev, av, args, c):
        if c.name.rpartition("::")[0].endswith(("StrDeserializer", "StringDeserializer")):
            return obj("Name", av[0].s) if isinstance(av[0], S) else None
        return self._new(ev, av, args, c)

    def known(self, recv, tr):
        return tr in FOREIGN.get(short(recv.name) or recv.name, ()) or ValueHist.known(self, recv, tr)

    def _new(self, ev, av, args, c):
        if c.name.rsplit("::", 2)[-2:-1] == ["Mapping"] or "Mapping" in c.name:
            return M()
        return ValueHist._new(self, ev, av, args, c)

    def m(self, recv, tr, name, *args):
        if isinstance(recv, Adt) and short(recv.name) not in FOREIGN and (short(recv.name), tr, name) not in self.methods:
            # methods serde defines in terms of others
            if tr == "MapAccess" and name == "next_key":
                return self.m(recv, tr, "next_key_seed", obj("Seed", ("ignored",)))
            if tr == "VariantAccess" and name == "newtype_variant":
                return self.m(recv, tr, "newtype_variant_seed", *args)
            if tr == "Visitor":
                if name in ("visit_borrowed_str", "visit_string"):
                    return self.m(recv, tr, "visit_str", *args)
                if name in ("visit_borrowed_bytes", "visit_byte_buf"):
                    return self.m(recv, tr, "visit_bytes", *args)
                w = {"visit_i8": "visit_i64", "visit_i16": "visit_i64", "visit_i32": "visit_i64", "visit_u8": "visit_u64", "visit_u16": "visit_u64", "visit_u32": "visit_u64", "visit_f32": "visit_f64", "visit_char": "visit_str"}.get(name)
                if w and (short(recv.name), tr, w) in self.methods:
                    return self.m(recv, tr, w, *args)
                return ERR, recv
        return ValueHist.m(self, recv, tr, name, *args)

    def foreign(self, recv, tr, name, args):
        if not isinstance(recv, Adt):
            return None
        f = getattr(self, "on_" + (short(recv.name) or recv.name).lower(), None)
        return f(recv, tr, name, args) if f and recv.name in FOREIGN else None

    def ser_value(self, v, ser):
        if isinstance(ser, Adt) and (isinstance(v, (L, M)) or isinstance(v, Adt) and short(v.name) in ("Value", "Mapping") or isinstance(v, Adt) and v.name in ("Value", "Mapping")):
            v = v if isinstance(v, Adt) and v.name.endswith("Value") else Adt("Value", "Sequence" if isinstance(v, L) else "Mapping", {"0": v})
            if short(ser.name) == "Serializer":
                return Ok(v)
            x = reading(v)
            if ser.name != "Rec":
                raise Unknown(f"a Value serialized with {ser.name}")
            if x is None:
                raise Unknown("a Value that is not known")
            return Ok(Box(("value", x)))
        return ValueHist.ser_value(self, v, ser)

    # ---- recording serializer
    def child(self, v):
        r = self.ser_value(v, REC)
        if r is None:
            raise Unknown(f"serialization of {v!r}")
        return r

    def on_rec(self, recv, tr, name, a):
        k = name[len("serialize_"):]
        if name == "collect_str":
            return Ok(Box(("text", self.deref(a[0])[1]))), recv
        if k in ("some", "newtype_struct", "newtype_variant"):
            r = self.child(a[-1])
            if r.variant == "Err":
                return r, recv
            return Ok(Box({"some": lambda: ("some", r.fields["0"].v), "newtype_struct": lambda: ("nts", r.fields["0"].v), "newtype_variant": lambda: ("ntv", a[2].s, r.fields["0"].v)}[k]())), recv
        if k == "unit_variant":
            return Ok(Box(("uv", a[2].s))), recv
        if k in ("seq", "map", "tuple", "tuple_struct", "struct", "tuple_variant", "struct_variant"):
            h = a[0] if k in ("seq", "map") else a[-1]
            head = (k, repr(h)) + ((a[2].s,) if "variant" in k else ())
            return Ok(Adt("RecC", None, {"v": Box((head, ()))})), recv
        return Ok(Box(("scalar", name, repr(a)))), recv

    def on_recc(self, recv, tr, name, a):
        head, items = recv.fields["v"].v
        want = {"seq": "SerializeSeq", "map": "SerializeMap", "tuple": "SerializeTuple", "tuple_struct": "SerializeTupleStruct", "struct": "SerializeStruct", "tuple_variant": "SerializeTupleVariant", "struct_variant": "SerializeStructVariant"}[head[0]]
        if tr != want:
            raise Unknown(f"{tr} on a {head[0]}")
        if name == "end":
            return Ok(Box((head, items))), recv
        out = []
        for x in a:
            if name == "serialize_field" and tr in ("SerializeStruct", "SerializeStructVariant") and not out:
                out.append(x.s)
                continue
            r = self.child(x)
            if r.variant == "Err":
                return r, recv
            out.append(r.fields["0"].v)
        n = name[len("serialize_"):]
        return Ok(UNIT), Adt("RecC", None, {"v": Box((head, items + ((n,) + tuple(out),)))})

    # ---- documents
    def visit(self, visitor, name, *a):
        return self.m(visitor, "Visitor", name, *a)[0]

    def on_doc(self, recv, tr, name, a):
        n, v = recv.fields["v"].v, a[-1]
        if name == "is_human_readable":
            return None
        t = v
        while isinstance(t, Adt) and t.name != "Ty":
            nx = [x for x in t.fields.values() if isinstance(x, Adt)]
            t = nx[0] if len(nx) == 1 else None
        k = n[0]
        extra = repr([x for x in a[:-1] if isinstance(x, I)]) + (repr(a[1]) if name == "deserialize_struct" else "")
        if k == "bad":
            r = ERR
        elif name == "deserialize_option":
            r = self.visit(v, "visit_unit") if k == "unit" else self.visit(v, "visit_none") if k == "null" else self.visit(v, "visit_some", recv)
        elif name == "deserialize_newtype_struct":
            r = self.visit(v, "visit_newtype_struct", recv)
        elif name == "deserialize_enum":
            r = self.visit(v, "visit_enum", obj("Name", n[1]) if k == "str" else obj("VarDoc", n)) if k in ("str", "tagged") else ERR
        elif k in ("null", "unit"):
            r = self.visit(v, "visit_unit")
        elif k in ("str", "borrowed_str", "string"):
            r = self.visit(v, "visit_" + k, S(n[1]))
        elif k in PRIMS or k == "borrowed_bytes":
            r = self.visit(v, "visit_" + k, n[1])
        elif k == "seq":
            r = self.visit(v, "visit_seq", obj("SeqDoc", n))
        elif k == "map":
            r = self.visit(v, "visit_map", obj("MapDoc", n))
        elif k == "tagged":
            r = self.visit(v, "visit_enum", obj("VarDoc", n))
        else:
            raise Unknown(k)
        if not isinstance(r, Adt):
            raise Unknown(f"{name} of {n}: {r!r}")
        if r.variant == "Ok" and isinstance(t, Adt) and t.fields["v"].v[0] != "enum":
            if not isinstance(r.fields["0"], Box):
                raise Unknown(f"{name}: {r!r}")
            r = Ok(Box(("at", name, extra, r.fields["0"].v)))
        return r, recv

    def seeded(self, seed, doc):
        return self.m(seed, "DeserializeSeed", "deserialize", doc)[0]

    def on_seqdoc(self, recv, tr, name, a):
        xs, i = recv.fields["v"].v[1], recv.fields["i"].lo
        if name == "size_hint":
            return None
        if i >= len(xs):
            return Ok(NONE), recv
        r = self.seeded(a[0], obj("Doc", xs[i]))
        return (Ok(Some(r.fields["0"])) if r.variant == "Ok" else r), obj("SeqDoc", recv.fields["v"].v, i + 1)

    def on_mapdoc(self, recv, tr, name, a):
        kv, i = recv.fields["v"].v[1], recv.fields["i"].lo
        nxt = obj("MapDoc", recv.fields["v"].v, i + 1)
        if name in ("next_key_seed", "next_key"):
            if i % 2:
                raise Unknown("a key asked for where a value is due")
            if i // 2 >= len(kv):
                return Ok(NONE), recv
            if name == "next_key":
                return Ok(Some(Box(("ignored",)))), nxt
            r = self.seeded(a[0], obj("Doc", kv[i // 2][0]))
            return (Ok(Some(r.fields["0"])) if r.variant == "Ok" else r), nxt
        if name == "next_value_seed":
            if not i % 2:
                raise Unknown("a value asked for before its key")
            return self.seeded(a[0], obj("Doc", kv[i // 2][1])), nxt
        return None

    def on_vardoc(self, recv, tr, name, a):
        n = recv.fields["v"].v
        if name == "variant_seed":
            r = self.seeded(a[0], obj("Doc", ("str", n[1])))
            return (Ok(Adt("tuple", None, {"0": r.fields["0"], "1": recv})) if r.variant == "Ok" else r), recv
        d = obj("Doc", n[2])
        if name == "unit_variant":
            return (Ok(UNIT) if n[2] == ("null",) else ERR), recv
        if name == "newtype_variant_seed":
            return self.seeded(a[0], d), recv
        if name == "tuple_variant":
            return self.m(d, "Deserializer", "deserialize_tuple", a[0], a[1])[0], recv
        if name == "struct_variant":
            return self.m(d, "Deserializer", "deserialize_struct", S(""), a[0], a[1])[0], recv

    def on_name(self, recv, tr, name, a):
        if name == "variant_seed":
            r = self.seeded(a[0], obj("Doc", ("str", recv.fields["v"].v)))
            return (Ok(Adt("tuple", None, {"0": r.fields["0"], "1": recv})) if r.variant == "Ok" else r), recv
        return (Ok(UNIT) if name == "unit_variant" else ERR), recv

    # ---- user types
    def on_seed(self, recv, tr, name, a):
        return self.read(recv.fields["v"].v, a[0]), recv

    def read(self, t, d):
        """`T::deserialize(d)`"""
        k, v = t[0], obj("Ty", t)
        a = {"tuple": [I(2, 2)], "ts": [S("T"), I(2, 2)], "struct": [S("T"), S("fields:" + ",".join(f for f, _ in t[1])) if k == "struct" else None], "nts": [S("T")], "us": [S("T")], "enum": [S("E"), S("variants")]}.get(k, [])
        n = {"opt": "option", "nts": "newtype_struct", "us": "unit_struct", "ts": "tuple_struct", "ident": "identifier", "ignored": "ignored_any"}.get(k, k)
        return self.m(d, "Deserializer", "deserialize_" + n, *(a + [v]))[0]

    def on_ty(self, recv, tr, name, a):
        t = recv.fields["v"].v
        return self.visited(t, name[len("visit_"):], a), recv

    def visited(self, t, v, a):
        k = t[0]
        any_ = k in ("any", "ignored")
        if k == "opt" and v in ("none", "unit") or any_ and v == "none":
            return Ok(Box(("none",)))
        if (k == "opt" or any_) and v == "some":
            return self.boxed("some", self.read(t[1] if k == "opt" else t, a[0]))
        if (k == "nts" or any_) and v == "newtype_struct":
            return self.boxed("nts", self.read(t[1] if k == "nts" else t, a[0]))
        if v == "seq" and (k in ("seq", "tuple", "ts") or any_):
            out, acc = [], a[0]
            while k in ("seq", "any", "ignored") or len(out) < 2:
                r, acc = self.m(acc, "SeqAccess", "next_element_seed", obj("Seed", t if any_ else t[1]))
                if r.variant == "Err":
                    return r
                o = r.fields["0"]
                if not isinstance(o, Adt) or o.variant not in ("Some", "None"):
                    raise Unknown(f"next_element_seed: {o!r}")
                if o.variant == "None":
                    if k in ("tuple", "ts"):
                        return ERR
                    break
                out.append(o.fields["0"].v)
            return Ok(Box(("seq", tuple(out))))
        if v == "map" and (k in ("map", "struct") or any_):
            out, acc = [], a[0]
            while True:
                r, acc = self.m(acc, "MapAccess", "next_key_seed", obj("Seed", ("ident",) if k == "struct" else t if any_ else t[1]))
                if r.variant == "Err":
                    return r
                o = r.fields["0"]
                if not isinstance(o, Adt) or o.variant not in ("Some", "None"):
                    raise Unknown(f"next_key_seed: {o!r}")
                if o.variant == "None":
                    break
                key = o.fields["0"].v
                ty = t if any_ else t[2] if k == "map" else dict(t[1]).get(key[3][2] if key[0] == "at" else None, ("ignored",))
                r, acc = self.m(acc, "MapAccess", "next_value_seed", obj("Seed", ty))
                if r.variant == "Err":
                    return r
                out.append((key, r.fields["0"].v))
            return Ok(Box(("map", tuple(out))))
        if v == "enum" and k == "enum":
            r = self.m(a[0], "EnumAccess", "variant_seed", obj("Seed", ("ident",)))[0]
            if r.variant == "Err":
                return r
            pair = r.fields["0"]
            name, acc = pair.fields["0"].v, pair.fields["1"]
            vk = dict(t[1]).get(name[3][2] if name[0] == "at" else name[2])
            if vk is None:
                return ERR
            if vk[0] == "unit":
                r = self.m(acc, "VariantAccess", "unit_variant")[0]
                return Ok(Box(("variant", name, None))) if r.variant == "Ok" else r
            if vk[0] == "newtype":
                r = self.m(acc, "VariantAccess", "newtype_variant_seed", obj("Seed", vk[1]))[0]
            elif vk[0] == "tuple":
                r = self.m(acc, "VariantAccess", "tuple_variant", I(2, 2), obj("Ty", ("tuple", vk[1])))[0]
            else:
                r = self.m(acc, "VariantAccess", "struct_variant", S("fields:" + ",".join(f for f, _ in vk[1])), obj("Ty", ("struct", vk[1])))[0]
            return Ok(Box(("variant", name, r.fields["0"].v))) if r.variant == "Ok" else r
        if any_ and v == "enum" or v in ("seq", "map", "enum", "some", "newtype_struct", "none") or k in ("opt", "seq", "tuple", "ts", "map", "struct", "nts", "enum"):
            return ERR
        if v == "unit":
            return Ok(Box(("visit", v, None))) if k in ("unit", "us") or any_ else ERR
        if k in ("unit", "us"):
            return ERR
        x = a[0]
        return Ok(Box(("visit", v, x.s if isinstance(x, S) else repr(x))))

    def boxed(self, k, r):
        return Ok(Box((k, r.fields["0"].v))) if r.variant == "Ok" else r


# ---- what the documentation says: writing
def turn(t, mode):
    """the value with its enum variants replaced ('native' keeps them)"""
    inner = "native" if mode == "top" else mode
    k = t[0]
    if mode == "native":
        return t
    if k == "some":
        return ("some", turn(t[1], mode))
    if k == "nts":
        return ("nts", turn(t[1], inner))
    if k == "ntv":
        return ("map", True, "variant", [(("str", t[1]), turn(t[2], inner))])
    if k == "tv":
        return ("map", True, "variant", [(("str", t[1]), ("value", ("seq", "seq", [turn(c, inner) for c in t[2]])))])
    if k == "sv":
        return ("map", True, "variant", [(("str", t[1]), ("value", ("struct", [(f, turn(c, inner)) for f, c in t[-1]])))])
    if inner == "native":
        return t
    if k == "seq":
        return t[:2] + ([turn(c, inner) for c in t[2]],) + t[3:]
    if k == "struct":
        return ("struct", [(f, turn(c, inner)) for f, c in t[1]])
    if k == "map":
        return t[:3] + ([(turn(a, inner), turn(b, inner)) for a, b in t[3]],)
    return t


def plain(t):
    """without the 'value' and 'variant' marks"""
    k = t[0]
    if k == "value":
        return plain(t[1])
    if k in ("some", "nts"):
        return (k, plain(t[1]))
    if k == "ntv":
        return (k, t[1], plain(t[2]))
    if k in ("seq", "tv"):
        return t[:2] + ([plain(c) for c in t[2]],) + t[3:]
    if k in ("struct", "sv"):
        return t[:-1] + ([(f, plain(c)) for f, c in t[-1]],)
    if k == "map":
        return t[:2] + ("key" if t[2] == "variant" else t[2], [(plain(a), plain(b)) for a, b in t[3]])
    return t


def recorded(t, through):
    """the calls a value makes, as the recording serializer writes them down; raises Empty"""
    k = t[0]
    if k == "value":
        return ("value", c27.wanted(plain(t[1]), through))
    if k == "call":
        return ("scalar", t[1], repr(tuple(t[2])))
    if k == "str":
        return ("scalar", "serialize_str", repr((S(t[1]),)))
    if k == "text":
        return t[:2]
    if k == "unit":
        return ("scalar", "serialize_unit", repr(()))
    if k in ("some", "nts"):
        return (k, recorded(t[1], through))
    if k == "ntv":
        return (k, t[1], recorded(t[2], through))
    if k == "uv":
        return t[:2]
    if k == "seq":
        n = I(len(t[2]), len(t[2]))
        name = {"seq": "seq", "tuple": "tuple", "ts": "tuple_struct"}[t[1]]
        h = (Some(n) if len(t) < 4 or t[3] else NONE) if t[1] == "seq" else n
        return ((name, repr(h)), tuple(("field" if t[1] == "ts" else "element", recorded(c, through)) for c in t[2]))
    if k == "tv":
        return (("tuple_variant", repr(I(len(t[2]), len(t[2]))), t[1]), tuple(("field", recorded(c, through)) for c in t[2]))
    if k in ("struct", "sv"):
        n = repr(I(len(t[-1]), len(t[-1])))
        return (("struct", n) if k == "struct" else ("struct_variant", n, t[1]), tuple(("field", f, recorded(c, through)) for f, c in t[-1]))
    if k == "map":
        n = I(len(t[3]), len(t[3])) if t[1] is True else I(t[1], t[1])
        items = []
        for a, b in t[3]:
            x, y = recorded(a, through), recorded(b, through)
            items += [("entry", x, y)] if t[2] != "key" else [("key", x), ("value", y)]
        return (("map", repr(Some(n) if t[1] else NONE)), tuple(items))
    raise KeyError(k)


def joined(v):
    """keys and values written one by one, as if written at once (a lone key that might be a tag is left alone)"""
    if not isinstance(v, tuple):
        return v
    v = tuple(joined(x) for x in v)
    if len(v) == 2 and isinstance(v[0], tuple) and v[0][:1] == ("map",):
        xs, out = v[1], []
        lone = len(xs) == 2 and not (xs[0][0] == "key" and xs[0][1][:2] == ("scalar", "serialize_str"))
        while xs:
            if not lone and len(xs) > 1 and xs[0][0] == "key" and xs[1][0] == "value":
                out.append(("entry", xs[0][1], xs[1][1]))
                xs = xs[2:]
            else:
                out.append(xs[0])
                xs = xs[1:]
        return (v[0], tuple(out))
    return v


# ---- what the documentation says: reading
def vis(kind, x=None):
    return ("visit", kind, x)


def wants(t, n, mode):
    """what the user's type sees, or None for an error"""
    inner = "native" if mode == "top" else mode
    r = shape_of(t, n, mode, inner)
    if r is None or t[0] == "enum":
        return r
    name = {"opt": "option", "nts": "newtype_struct", "us": "unit_struct", "ts": "tuple_struct", "ident": "identifier", "ignored": "ignored_any"}.get(t[0], t[0])
    extra = repr([I(2, 2)] if t[0] in ("tuple", "ts") else []) + (repr(S("fields:" + ",".join(f for f, _ in t[1]))) if t[0] == "struct" else "")
    return ("at", "deserialize_" + name, extra, r)


def leafv(n):
    return vis(n[0], n[1] if isinstance(n[1], str) else repr(n[1]))


def shape_of(t, n, mode, inner):
    k, d = t[0], n[0]
    any_ = k in ("any", "ignored")
    if d == "bad":
        return None
    if k == "enum":
        if mode == "native":
            name, c = (n[1], None) if d == "str" else (n[1], n[2]) if d == "tagged" else (None, None)
        elif d in ("str", "borrowed_str", "string"):
            name, c = n[1], None
        elif d == "map" and len(n[1]) == 1 and n[1][0][0][0] == "str":
            name, c = n[1][0][0][1], n[1][0][1]
        else:
            return None
        vk = dict(t[1]).get(name)
        if vk is None:
            return None
        nm = ("at", "deserialize_identifier", "[]", vis("str", name))
        if mode != "native" and d in ("borrowed_str", "string"):
            nm = ("at", "deserialize_identifier", "[]", vis("str", name))
        if vk[0] == "unit":
            return ("variant", nm, None) if c is None or mode == "native" and c == ("null",) else None
        if c is None:
            return None
        r = wants(vk[1], c, inner) if vk[0] == "newtype" else wants(("tuple", vk[1]) if vk[0] == "tuple" else ("struct", vk[1]), c, inner)
        return ("variant", nm, r) if r is not None else None
    if k == "opt":
        if d in ("null", "unit"):
            return ("none",)
        r = wants(t[1], n, mode)
        return ("some", r) if r is not None else None
    if k == "nts":
        r = wants(t[1], n, inner)
        return ("nts", r) if r is not None else None
    if d == "tagged":
        return None
    if d in ("null", "unit"):
        return vis("unit") if k in ("unit", "us") or any_ else None
    if d == "seq":
        if k not in ("seq", "tuple", "ts") and not any_ or k in ("tuple", "ts") and len(n[1]) < 2:
            return None
        xs = [wants(t if any_ else t[1], x, inner) for x in (n[1] if k not in ("tuple", "ts") else n[1][:2])]
        return None if None in xs else ("seq", tuple(xs))
    if d == "map":
        if k not in ("map", "struct") and not any_:
            return None
        out = []
        for a, b in n[1]:
            x = wants(("ident",) if k == "struct" else t if any_ else t[1], a, inner)
            if x is None:
                return None
            y = wants(t if any_ else t[2] if k == "map" else dict(t[1]).get(x[3][2], ("ignored",)), b, inner)
            if y is None:
                return None
            out.append((x, y))
        return ("map", tuple(out))
    if k in ("seq", "tuple", "ts", "map", "struct", "unit", "us"):
        return None
    return leafv(n)


def docs_and_types():
    N_ = ("null",)
    s = lambda x: ("str", x)
    en = lambda T: ("enum", (("U", ("unit",)), ("N", ("newtype", T)), ("P", ("tuple", T)), ("S", ("struct", (("a", T), ("b", T))))))
    leaf = [N_, ("unit",), s("U"), s("zz"), ("borrowed_str", "U"), ("string", "U"), ("borrowed_str", "x"), ("string", "x"), ("bool", I(1, 1)), ("u64", I(5, 5)), ("i64", I(-5, -5)), ("f64", F({"+fin"}, val=1.5)), ("char", I(97, 97)), ("bytes", X("bytes")), ("borrowed_bytes", X("bytes")), ("byte_buf", X("bytes")),
            ("i128", I(2 ** 70, 2 ** 70)), ("u128", I(2 ** 70, 2 ** 70)), ("bad",)] + [(p, I(1, 1)) for p in ("i8", "i16", "i32", "u8", "u16", "u32")] + [("f32", F({"+fin"}, val=1.5))]
    prim = [(p,) for p in PRIMS] + [("any",), ("unit",), ("us",), ("ident",), ("ignored",)]
    for t in prim:
        for n in leaf:
            yield t, n
        for n in (("seq", ()), ("map", ()), ("seq", (N_, s("x"))), ("map", ((s("k"), N_),))):
            yield t, n

    def single(n):
        """documents that look like an enum around n"""
        yield s("U")
        yield ("map", ((s("U"), n),))
        yield ("map", ((s("N"), n),))
        yield ("map", ((s("P"), ("seq", (n, n))),))
        yield ("map", ((s("P"), ("seq", (n,))),))
        yield ("map", ((s("P"), n),))
        yield ("map", ((s("S"), ("map", ((s("a"), n), (s("b"), n)))),))
        yield ("map", ((s("S"), ("map", ((s("b"), n), (s("q"), n)))),))
        yield ("map", ((s("S"), n),))
        yield ("map", ((s("zz"), n),))
        yield ("map", ((("u64", I(5, 5)), n),))
        yield ("map", ())
        for a in ("N", "P", "S"):
            for b in (s("N"), s("zz"), N_):
                c = n if a == "N" else ("seq", (n, n)) if a == "P" else ("map", ((s("a"), n),))
                yield ("map", ((s(a), c), (b, n)))
        yield ("tagged", "N", n)
        yield ("tagged", "U", N_)
        yield ("seq", (s("N"), n))
        yield N_
        yield ("unit",)
        yield n
    T1 = [("u64",), ("any",), ("str",), ("opt", ("u64",))]
    E1 = [en(t) for t in T1]
    L1 = [("u64", I(5, 5)), s("x"), N_, ("bad",), ("seq", (N_,))]
    inside = lambda t: [("opt", t), ("nts", t), ("seq", t), ("tuple", t), ("ts", t), ("map", ("str",), t), ("map", t, ("any",)), ("struct", (("a", t), ("b", t))), ("opt", ("opt", t)), ("nts", ("opt", t)), ("opt", ("nts", t)), ("any",), ("ignored",)]

    def around(n):
        yield n
        yield ("seq", (n, n))
        yield ("seq", (n,))
        yield ("map", ((s("a"), n), (s("b"), n)))
        yield ("map", ((n, s("v")),))
        yield ("map", ((s("q"), n), (s("a"), n)))
    for e, t in zip(E1, T1):
        for n in L1:
            for d in single(n):
                yield e, d
                yield ("opt", e), d
    e = en(("u64",))
    for d in single(("u64", I(5, 5))):
        for t in inside(e):
            for x in around(d):
                yield t, x
        # an enum inside an enum
        ee = en(e)
        for x in single(d):
            yield ee, x
            yield ("opt", ee), x
            yield ("seq", ee), ("seq", (x,))
            yield ("nts", ee), x
    for t in inside(e):
        for d in list(single(("u64", I(5, 5))))[:6]:
            for x in around(d):
                for y in single(x):
                    yield en(t), y


def say(v):
    s = repr(v)
    return s if len(s) < 260 else s[:260] + "..."


def check(ck):
    R = run.analyse(dict(GROUP))
    mods = {"singleton_map": "top", "singleton_map_recursive": "rec"}
    budget = run.Budget(500 if ck.deep else 300)
    for mod, mode in mods.items():
        mine = [e for e in R.entries if e.module == "with::" + mod or e.module.startswith("with::" + mod + "::")]
        for e in mine:
            if e.error or e.cut:
                ck.undecided(e.name, "analysis cut")
            ck.use(e)
        ck.floor(f"{mod}: functions", len(mine), 60)
        h = WithHist([e for e in R.entries if e.module.startswith("value::ser")] + mine)
        top = {}
        for fn in ("serialize", "deserialize"):
            top[fn] = next((e for e in mine if e.name.rpartition("::")[2] == fn and " as " not in e.name), None)
            if top[fn] is None:
                ck.violation(f"{mod}::{fn}:missing", "no such function", "src/with.rs")
        if None in top.values():
            continue
        for e in mine:
            if e.name.endswith("is_human_readable"):
                for p in e.paths:
                    cs = list(p.calls())
                    ck.obl(True if p.end == "return" and len(cs) == 1 and cs[0].last == "is_human_readable" and p.val == cs[0].ret else False if p.end == "return" and (not cs or e.terms[p.val][0] == "i") else None, f"{mod}:human_readable:{e.name}", "whether the format is human-readable is not passed on", f"{e.name} {p.span}")
        bad = {}

        def note(key, msg, where, size):
            if key not in bad or size < bad[key][2]:
                bad[key] = (msg, where, size)
        # writing
        n = 0
        for t in c27.runs(ck.deep):
            if budget.over():
                ck.undecided("time", "the histories were not all explored")
                break
            n += 1
            exp = []
            for through in (False, True):
                try:
                    exp.append(joined(recorded(turn(t, mode), through)))
                except Empty:
                    exp.append("error")
            try:
                r = h._call(top["serialize"], [h.ref(t), REC])[0]
                got = joined(r.fields["0"].v) if r.variant == "Ok" else "error"
            except Unknown as x:
                ck.obl(None, f"{mod}:write:{str(x)[:60]}", f"{t}: {x}"[:700])
                continue
            except Panic as x:
                got = ("panic", str(x))
            if got in exp:
                ck.obl(True, f"{mod}:write")
            else:
                k = t[0] if t[0] != "call" else t[1]
                note(f"{mod}:write:{k}", f"{t} is written as {say(got)} instead of {say(exp[0])}", f"with::{mod}", len(repr(t)))
        ck.count(f"{mod}: values written", n)
        # reading
        n = 0
        for t, d in docs_and_types():
            if budget.over():
                ck.undecided("time", "the histories were not all explored")
                break
            n += 1
            exp = wants(t, d, mode)
            try:
                r = read_top(h, top["deserialize"], t, d)
                got = r.fields["0"].v if r.variant == "Ok" else None
            except Unknown as x:
                ck.obl(None, f"{mod}:read:{str(x)[:60]}", str(x)[:150])
                continue
            except Panic as x:
                got = ("panic", str(x))
            if got == exp:
                ck.obl(True, f"{mod}:read")
                if n % 1200 == 1:
                    ck.sample(f"{mod}: {d} read as {t}: {say(got)}")
            else:
                note(f"{mod}:read:{t[0]}", f"{d} read as {t} gives {say(got) if got is not None else 'an error'} instead of {say(exp) if exp is not None else 'an error'}", f"with::{mod}", len(repr((t, d))))
        ck.count(f"{mod}: reads", n)
        ck.floor(f"{mod}: method evaluations", h.transitions, 400)
        for k, (msg, where, _) in bad.items():
            ck.violation(k, msg, where)


def read_top(h, e, t, d):
    """the module's deserialize function, T being the type t"""
    h.fns["call:deserialize"] = lambda ev, av, a, c: h.read(t, av[0]) if len(av) == 1 and isinstance(av[0], Adt) else h._trait(ev, av, a, c)
    return h._call(e, [obj("Doc", d)])[0]
