"""How the low-level parser's events are turned into the crate's own, read off the paths of the conversion."""
from absval import *

PARSER_GROUP = dict(entries=["libyaml::parser|Parser::*"], max_paths=8000)
MEMBER = {"Scalar": "scalar", "SequenceStart": "sequence_start", "MappingStart": "mapping_start", "Alias": "alias"}


def result_is(ty, *parts):
    return bool(ty) and ty.replace("std::result::", "").replace("core::result::", "").startswith("Result<(") and all(p in ty for p in parts)


def source_entry(R):
    """the function of the parser module that yields the next event with its position"""
    r = [e for e in R.entries if "parser" in e.module and result_is(e.ret_ty or "", "Event", "Mark") and not e.name.startswith("<")]
    if not r:
        r = [e for e in R.entries if "parser" in e.module and any(p.end == "return" and result_is(e.ty(p.val), "Event", "Mark") for p in e.paths)]
    return r[0] if len(r) == 1 else None


def unionfields(e, t):
    """{"scalar.anchor", ...}: fields of the C event's data union the term is made from"""
    out = set()
    for x in e.subterms(t):
        k = e.terms[x]
        if k[0] == "f":
            k1 = e.terms[k[1]]
            if k1[0] == "f" and e.terms[k1[1]][0] == "f" and e.terms[k1[1]][3] == "data":
                out.add(f"{k1[3]}.{k[3]}")
    return out


def headfields(e, t):
    """names of the C event's own fields the term is made from"""
    return {e.terms[x][3] for x in e.subterms(t) if e.terms[x][0] == "f" and (e.ty(e.terms[x][1]) or "").endswith("yaml_event_t")}


def conversions(e):
    """(path, sys type names or None, event variant, payload fields {name: term}, mark term)"""
    for p in e.paths:
        if p.end != "return":
            continue
        k = e.terms[p.val]
        if k[0] != "A" or k[2] != "Ok":
            continue
        tup = e.terms[e.strip(k[3][0])]
        if tup[0] != "A" or len(tup[3]) != 2:
            continue
        ev = e.terms[e.strip(tup[3][0])]
        if ev[0] != "A":
            continue
        kinds = None
        for t, dom in p.facts.items():
            kt = e.terms[t]
            if kt[0] == "D" and e.terms[kt[1]][0] == "f" and e.terms[kt[1]][3] == "type_" and "in" in dom:
                kinds = set(dom["in"])
        fields = {}
        if ev[3]:
            x = e.strip(ev[3][0])
            fields = e.fields(x) if e.terms[x][0] == "A" and (e.ty(x) or "").partition("<")[0].endswith(ev[2]) else {"0": x}
        yield p, kinds, ev[2], fields, tup[3][1]


def null_tested(e, p, t):
    """is the pointer term t known to be null (True), known not to be (False), or untested (None) on p"""
    for f, dom in p.facts.items():
        k = e.terms[f]
        x = f
        if k[0] == "b" and k[1] in ("Eq", "Ne"):
            a, b = k[2], k[3]
            if e.int(b) != 0:
                a, b = b, a
            if e.int(b) == 0:
                while e.terms[a][0] == "c":
                    a = e.terms[a][2]
                if a == t:
                    v = None
                    if "in" in dom and len(dom["in"]) == 1:
                        v = dom["in"][0] != 0
                    elif "not" in dom and 0 in dom["not"]:
                        v = True
                    elif "not" in dom and 1 in dom["not"]:
                        v = False
                    if v is not None:
                        return v == (k[1] == "Eq")
        elif k[0] == "a" and base(k[1])[1] == "is_null":
            a = k[2][0]
            while e.terms[a][0] == "c":
                a = e.terms[a][2]
            if a == t:
                return dom.get("in") == [1] or 0 in dom.get("not", [])
        elif k[0] == "c" or k[0] == "f":
            a = t
            while e.terms[x][0] == "c":
                x = e.terms[x][2]
            if x == a:
                if dom.get("in") == [0]:
                    return True
                if 0 in dom.get("not", []):
                    return False
    return None


def pointer(e, member, field):
    """terms reading data.<member>.<field>"""
    return [t for t, k in e.terms.items() if k[0] == "f" and k[3] == field and e.terms[k[1]][0] == "f" and e.terms[k[1]][3] == member and e.terms[e.terms[k[1]][1]][0] == "f" and e.terms[e.terms[k[1]][1]][3] == "data"]


def option(e, t):
    """('Some', payload) / ('None', None) / None for an optional field term"""
    k = e.terms[e.strip(t)]
    if k[0] == "A" and k[2] in ("Some", "None"):
        return k[2], k[3][0] if k[3] else None
    return None
