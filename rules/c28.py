from absval import *
from model import *
from rules.c05 import tag_strings, canon, mktag, tag_related, table, lits
import fmtargs, run

WHAT = ("Tag strings with zero, one and two leading exclamation marks are run through every path of equality (with tags and strings), ordering, hashing, Display, the recogniser of displayed tags, tag construction from data "
        "and enum access: one leading mark must never matter, exactly one must be displayed, and an empty tag must be refused.")
ASSUMES = ["core::fmt writes the pieces of a format string one after the other", "serde's StrDeserializer hands on the string it was given"]


def displayed(ck, e, s, label):
    """the pieces Display writes for the tag string s, or None"""
    ev = Ev(e, {e.params[0][0]: mktag(s)})
    got = []
    for f, p, ch in ev.outcomes():
        ev.at(ch)
        ps = fmtargs.written(e, p, e.params[1][0])
        if ps is None:
            return None
        # an earlier write that failed ends the path: only complete outputs count
        if any(c.last in ("write_str", "write_fmt", "write_char", "fmt", "pad") and (p.variants(c.ret) == {"Err"}) for c in p.calls()):
            continue
        t = fmtargs.texts(ev, ps)
        if any(x is None for x in t):
            return None
        if t not in got:
            got.append(t)
    return got[0] if len(got) == 1 else None


def recognise(ck, R, pieces):
    """what the recogniser of displayed tags makes of text written in these pieces: ('Tag'|'NotTag', text) or None"""
    w = [e for e in R.find(lambda n: n.endswith(" as Write>::write_str"), module="value::tagged*") if not e.cut and not e.error]
    c = R.find(lambda n: n.endswith("check_for_tag"))
    if len(w) != 1 or len(c) != 1 or c[0].error or c[0].cut:
        return None
    w, c = ck.use(w[0]), ck.use(c[0])
    calls = {x.uid: x for p in c.paths for x in p.calls() if x.last in ("write", "write_fmt") and x.args}
    if len(calls) != 1:
        return None
    call = next(iter(calls.values()))
    state = Ev(c, {}).ev(call.args[0])
    for s in pieces:
        ev = Ev(w, {w.params[0][0]: state, w.params[1][0]: S(s)})
        nxt = []
        for f, p, ch in ev.outcomes():
            v = ev.at(ch).ev(p.out[0]) if 0 in p.out else state
            if v is None or isinstance(v, Adt) and any(x is None for x in v.fields.values()):
                return None
            if v not in nxt:
                nxt.append(v)
        if len(nxt) != 1:
            return None
        state = nxt[0]
    hv = [t for t, k in c.terms.items() if k[0] == "y" and k[1] == "havoc" and k[2] == call.uid]
    ev = Ev(c, {t: state for t in hv})
    out = []
    for f, p, ch in ev.outcomes():
        v = ev.at(ch).ev(p.val)
        if v not in out:
            out.append(v)
    if len(out) == 1 and isinstance(out[0], Adt) and isinstance(out[0].fields.get("0"), S):
        return out[0].variant, out[0].fields["0"].s
    return None


def check(ck):
    R, V, D = run.analyse(
        dict(entries=["value::tagged|<Tag as *", "value::tagged|Tag::*", "value::tagged*|*check_for_tag*", "value::tagged*|*Write>*", "value::tagged*|*TagStringVisitor*", "value::tagged|*EnumAccess>*", "value::tagged*|*Serialize>*", "value::tagged*|*visit_enum"], max_paths=3000),
        dict(entries=["value::de|<Value as Deserializer>::deserialize_enum", "value::de|<&Value as Deserializer>::deserialize_enum"], max_paths=3000),
        dict(entries=["de|de::parse_tag"], max_paths=3000))
    tags = [e for e in (ck.need(R, n) for n in ("<Tag as PartialEq<Tag>>::eq", "<Tag as Ord>::cmp", "<Tag as PartialOrd<Tag>>::partial_cmp", "<Tag as Hash>::hash", "<Tag as Display>::fmt")) if e]
    consts = lits(tags)
    eq, cm, pc, hs = (R.one(n) for n in ("<Tag as PartialEq<Tag>>::eq", "<Tag as Ord>::cmp", "<Tag as PartialOrd<Tag>>::partial_cmp", "<Tag as Hash>::hash"))
    cl, rel = tag_related(mktag, consts)
    table(ck, "Tag", cl, rel, [x for x in (eq,) if x], [x for x in (cm, pc) if x], [x for x in (hs,) if x])
    # with strings
    gen = [e for e in R.find(lambda n: n.startswith("<Tag as PartialEq<") and n.endswith("::eq")) if e.name != "<Tag as PartialEq<Tag>>::eq"]
    ck.floor("comparisons of a tag with a string", len(gen), 1)
    for e in gen:
        ck.use(e)
        for a in tag_strings(consts):
            for b in tag_strings(consts):
                ev, rs = results(e, {e.params[0][0]: mktag(a), e.params[1][0]: S(b)})
                judge(ck, f"{e.name}:{a}~{b}", e, rs, lambda r, p: bool(r.lo) == (canon(a) == canon(b)) if isinstance(r, I) and r.const is not None else None, f"tag {a!r} and string {b!r} must {'' if canon(a) == canon(b) else 'not '}be equal")
    # display
    e = R.one("<Tag as Display>::fmt")
    if e:
        for s in tag_strings(consts):
            ps = displayed(ck, e, s, s)
            if ps is None:
                ck.undecided(f"Display:{s}", "pieces not recognised")
                continue
            ck.obl("".join(ps) == "!" + canon(s), f"Display:{s}", f"tag {s!r} displays as {''.join(ps)!r}, expected {'!' + canon(s)!r}", e.span)
            if s.startswith("!!"):
                continue    # a second mark belongs to the name; which text denotes such a tag is not claimed
            r = recognise(ck, R, ps)
            if r is None:
                ck.undecided(f"recognise:{s}", "")
            else:
                ck.obl(r[0] == "Tag" and canon(r[1]) == canon(s), f"recognise:{s}", f"tag {s!r} is displayed in pieces {ps!r}, which the serializers take for {r[0]}({r[1]!r})", e.span)
    # other displayed text is never mistaken for a tag unless it starts with a lone "!", and keeps its characters
    for ps in (["x"], ["!x"], ["x", "!"], ["", "x"], ["a", "b", "c"], ["!", "a", "b"], ["!a", "b"], [R"\u00e9", "!", "b"], ["!"], ["", "!", ""], [""]):
        r = recognise(ck, R, ps)
        if r is None:
            ck.undecided(f"recognise-text:{ps}", "")
            continue
        ck.obl(r == ("NotTag", "".join(ps)), f"recognise-text:{ps}", f"text written in the pieces {ps!r} is taken for {r[0]}({r[1]!r})", "check_for_tag")
    # construction
    e = ck.need(R, "Tag::new")
    if e:
        into = {"into": lambda ev, av, at, t: av[0]}
        for s in [""] + tag_strings(consts):
            ev, rs = results(e, {e.params[0][0]: S(s)}, None, into, ("return", "panic"))
            rs = [r for r in rs if not (r[1].end == "panic" and "alloc" in str(r[1].val))]
            judge(ck, f"Tag::new:{s}", e, rs, lambda r, p: (p.end == "panic") if s == "" else (False if p.end == "panic" else keeps(r, s)), f"Tag::new({s!r}) must {'panic' if s == '' else 'denote that tag'}")
    for m in ("visit_str", "visit_string"):
        e = ck.need(R, f"<TagStringVisitor as Visitor>::{m}")
        if e:
            for s in [""] + tag_strings(consts):
                ev, rs = results(e, {e.params[1][0]: S(s)}, None, None, ("return", "panic"))

                def pred(r, p):
                    if p.end == "panic":
                        return False
                    if not isinstance(r, Adt) or r.variant not in ("Ok", "Err"):
                        return None
                    if s == "":
                        return r.variant == "Err"
                    return False if r.variant == "Err" else keeps(r.fields.get("0"), s)
                judge(ck, f"{m}:{s}", e, rs, pred, f"reading the tag {s!r} must be {'refused' if s == '' else 'that tag'}")
    # enum access: the variant name is the tag without its mark, the content is the value
    for ty in ("TaggedValue", "&TaggedValue"):
        e = ck.need(R, f"<{ty} as EnumAccess>::variant_seed")
        if not e:
            continue
        for s in tag_strings(consts):
            ev = Ev(e, {e.params[0][0]: Adt("TaggedValue", None, {"tag": mktag(s), "value": X("content")})})
            for f, p, ch in ev.outcomes():
                ev.at(ch)
                made = [c for c in p.calls() if c.last in ("new", "into_deserializer", "from") and "StrDeserializer" in c.name + c.selfty]
                key = f"{ty}:variant_seed:{s}"
                if len(made) != 1:
                    ck.undecided(key, "no string deserializer recognised")
                    continue
                v = ev.ev(made[0].args[0])
                ck.obl(sure(f, None if not isinstance(v, S) else v.s == canon(s)), key, f"the variant name handed out for tag {s!r} is {v}, expected {canon(s)!r}", f"{e.name} {made[0].span}")
                r = ev.ev(p.val)
                if isinstance(r, Adt) and r.variant == "Ok" and isinstance(r.fields.get("0"), Adt):
                    c = r.fields["0"].fields.get("1")
                    ck.obl(sure(f, None if c is None else c == X("content")), key + ":content", f"the content handed out is {c}", f"{e.name} {p.span}")
    for ty in ("Value", "&Value"):
        e = ck.need(V, f"<{ty} as Deserializer>::deserialize_enum")
        if not e:
            continue
        for s in tag_strings(consts):
            for label, v, want in (("tagged", Val("Tagged", Adt("TaggedValue", None, {"tag": mktag(s), "value": X("content")})), canon(s)), ("string", Val("String", S(s)), s)):
                ev = Ev(e, {e.params[0][0]: v})
                n = 0
                for f, p, ch in ev.outcomes():
                    ev.at(ch)
                    for c in p.calls():
                        if c.last != "visit_enum" or len(c.args) < 2:
                            continue
                        n += 1
                        a = ev.ev(c.args[1])
                        t = a.fields.get("tag") if isinstance(a, Adt) else None
                        ck.obl(sure(f, None if not isinstance(t, S) else t.s == want), f"{ty}:deserialize_enum:{label}:{s}", f"variant name of {label} {s!r} is {t}, expected {want!r}", f"{e.name} {c.span}")
                if not n:
                    ck.undecided(f"{ty}:deserialize_enum:{label}:{s}", "no enum access seen")
    # serialization writes the displayed form
    e = [x for x in R.find(lambda n: n.startswith("<SerializeTag as Serialize>")) if not x.cut]
    for x in e:
        ck.use(x)
        for p in x.paths:
            cs = [c for c in p.calls() if c.last.startswith("serialize_") or c.last == "collect_str"]
            ck.obl(None if len(cs) != 1 else cs[0].last == "collect_str" and "Tag" in cs[0].targs, f"{x.name}", "a tag must be serialized through its Display form for the serializers to recognise it", f"{x.name} {p.span}")
    e = ck.need(R, "<TaggedValue as Serialize>::serialize")
    if e:
        for p in e.paths:
            if p.end != "return":
                continue
            cs = [c for c in p.calls() if c.is_("Serializer::serialize_map", "SerializeMap::serialize_entry", "SerializeMap::serialize_key", "SerializeMap::serialize_value", "SerializeMap::end")]
            oks = not any(p.variants(c.ret) == {"Err"} for c in cs)
            if not oks:
                continue
            ev = Ev(e, {e.params[0][0]: Adt("TaggedValue", None, {"tag": X("tag"), "value": X("content")})})
            names = [c.last for c in cs]
            if names in (["serialize_map", "serialize_entry", "end"], ["serialize_map", "serialize_key", "serialize_value", "end"]):
                vs = [ev.ev(a) for c in cs[1:-1] for a in c.args[1:]]
                k = vs[0].fields.get("0") if isinstance(vs[0], Adt) and vs[0].fields else vs[0]
                ck.obl(None if k is None or vs[1] is None else k == X("tag") and vs[1] == X("content"), "TaggedValue::serialize", f"a tagged value is serialized as entry {vs}", f"{e.name} {p.span}")
            else:
                ck.obl(None if "serialize_map" in names and len(names) >= 3 else False, "TaggedValue::serialize", f"a tagged value is serialized by {names}, not as a single-entry map keyed by its tag", f"{e.name} {p.span}")
    # text: the tag of a node
    e = [x for x in D.find(lambda n: n.endswith("parse_tag")) if not x.cut and len(x.params) == 1]
    for x in e:
        ck.use(x)
        # arbitrary names stand as letters here, so that byte patterns can be decided
        for s in dict.fromkeys(x.replace("\ue000", "q").replace("\ue001", "w") for x in tag_strings(())):
            fns = {"split_first": lambda ev, av, at, t: Some(Adt("tuple", None, {"0": I(ord(av[0].s[0]), ord(av[0].s[0])), "1": S(av[0].s[1:])})) if isinstance(av[0], S) and av[0].s else NONE if isinstance(av[0], S) else None,
                   "from_utf8": lambda ev, av, at, t: Adt("Result", "Ok", {"0": av[0]}) if isinstance(av[0], S) else None}
            if ord(s[0]) > 127:
                continue
            ev, rs = results(x, {x.params[0][0]: Some(S(s))}, None, fns)

            def pred(r, p):
                o = opt(r)
                if o is None:
                    return None
                if not s.startswith("!"):
                    return o[0] == "None"
                return o[0] == "Some" and (None if not isinstance(o[1], S) else o[1].s == canon(s))
            judge(ck, f"parse_tag:{s}", x, rs, pred, f"the tag text {s!r} of a node")


def keeps(r, s):
    """does the abstract Tag r denote the tag string s?"""
    if isinstance(r, Adt) and r.name == "Tag" and isinstance(next(iter(r.fields.values()), None), S):
        return canon(next(iter(r.fields.values())).s) == canon(s)
    return None
