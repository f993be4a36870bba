from absval import *
from model import *
import fmtargs, run

WHAT = ("The visitor that builds a Mapping is evaluated for a source that yields a key already present, a new key, an error, or no more keys: a present key must end in an error on every path, a new key must be stored exactly once with the "
        "value read for it, errors of the source must surface, and the finished map is the one all iterations filled. The untyped Value visitor must build mappings the same way.")
ASSUMES = ["indexmap::IndexMap::entry distinguishes occupied from vacant keys by Value's Hash and Eq (coherent by C05)", "serde's MapAccessDeserializer hands the map access on to Visitor::visit_map"]

OCC, VAC = X("occupied"), X("vacant")


def Ok(v):
    return Adt("Result", "Ok", {"0": v})


def Err(v):
    return Adt("Result", "Err", {"0": v})


def kinds():
    """(label, key, value in the map, value read): untyped keys and values of every kind"""
    yield "", X("key"), X("old"), X("value")
    def vals(pre):
        yield Val("Null", None)
        for b in (True, False):
            yield Val("Bool", B(b))
        for i, n in enumerate((N("PosInt", I(0, 0)), N("PosInt", I(7, 7)), N("NegInt", I(-3, -3)), N("Float", F("nan", pre)), N("Float", F("+inf", pre)))):
            yield Val("Number", Num(n))
        yield Val("String", "")
        yield Val("String", "<<")
        yield Val("String", "text")
        for v in ("Sequence", "Mapping", "Tagged"):
            yield Val(v, X(pre + v))
    for k in vals("k"):
        yield f" (key {k.variant})", k, X("old"), X("value")
    for o in vals("o"):
        yield f" (stored {o.variant})", X("key"), o, X("value")
    for v in vals("v"):
        yield f" (value {v.variant})", X("key"), X("old"), v
        yield f" (equal values {v.variant})", X("key"), v, v


def source(kind, KEY, OLD, VAL):
    """what MapAccess yields in the scenario"""
    def key(ev, av, at, c):
        return {"end": Ok(NONE), "keyerr": Err(X("E"))}.get(kind, Ok(Some(KEY)))

    def val(ev, av, at, c):
        return Err(X("E")) if kind == "valerr" else Ok(VAL)

    def both(ev, av, at, c):
        return {"end": Ok(NONE), "keyerr": Err(X("E")), "valerr": Err(X("E"))}.get(kind, Ok(Some(Adt("tuple", None, {"0": KEY, "1": VAL}))))
    present = kind == "present"
    fns = {"next_key": key, "next_key_seed": key, "next_value": val, "next_value_seed": val, "next_entry": both, "next_entry_seed": both,
           "entry": lambda ev, av, at, c: Adt("Entry", "Occupied" if present else "Vacant", {"0": OCC if present else VAC}),
           "contains_key": lambda ev, av, at, c: B(present),
           "is_key_into": lambda ev, av, at, c: B(present),
           "get": lambda ev, av, at, c: OLD if av and av[0] == OCC else Some(OLD) if present else NONE,
           "get_mut": lambda ev, av, at, c: OLD if av and av[0] == OCC else Some(OLD) if present else NONE,
           "key": lambda ev, av, at, c: KEY if av and av[0] in (OCC, VAC) else None,
           "get_index_of": lambda ev, av, at, c: Some(I(0, 0)) if present else NONE,
           "get_key_value": lambda ev, av, at, c: Some(Adt("tuple", None, {"0": KEY, "1": OLD})) if present else NONE,
           "insert": lambda ev, av, at, c: (None if VAC in av or OCC in av else Some(OLD) if present else NONE),
           "custom": lambda ev, av, at, c: X("custom")}
    return {("call:" + k): v for k, v in fns.items()} | {k: v for k, v in fns.items() if k not in ("insert",)}


def inserted(ev, p, KEY):
    """(key, value) pairs stored along p; None entries are not understood"""
    out = []
    for c in p.all_calls():
        av = [ev.ev(a) for a in c.args]
        if c.last in ("insert", "insert_entry") and "VacantEntry" in c.name:
            out.append((KEY if av[0] == VAC else None, av[-1]))
        elif c.last in ("insert", "insert_full", "insert_sorted", "replace_full") and ("IndexMap" in c.name or "OccupiedEntry" in c.name):
            out.append(tuple(av[-2:]) if "IndexMap" in c.name else (X("overwrite"), av[-1]))
        elif c.last in ("or_insert", "or_insert_with", "or_default") and "Entry" in c.name:
            out.append((None, None))
    out += [(X("overwrite"), ev.ev(v)) for pl, v, sp in p.stores()]
    return out


def loop(ck, e, label, wrap):
    keys = [c for p in e.paths for c in p.calls() if c.last in ("next_key", "next_entry", "next_key_seed", "next_entry_seed")]
    if not keys:
        return False
    # keys are read as untyped values: a narrower type would make different keys meet or fail
    for lab, KEY, OLD, VAL in kinds():
        for kind in ("present", "absent", "end", "keyerr", "valerr") if not lab else ("present", "absent"):
            ev = Ev(e, {}, None, source(kind, KEY, OLD, VAL))
            rs = ev.outcomes(("return", "back", "panic"))
            if not rs:
                ck.undecided(f"{label}:{kind}", "no feasible path")
            seen = 0
            for f, p, ch in rs:
                ev.at(ch)
                touched = [c for c in p.calls() if c.last in ("next_key", "next_entry", "next_key_seed", "next_entry_seed")]
                if not touched and kind != "end":
                    continue    # leaves before asking for a key
                seen += 1
                v = ev.ev(p.val) if p.end == "return" else None
                at = f"{e.name} {p.span}"
                read_value = [c for c in p.calls() if c.last in ("next_value", "next_entry", "next_value_seed", "next_entry_seed")]
                if p.end == "panic":
                    ck.obl(sure(f, False), f"{label}:{kind}:panic", "panics", at)
                elif kind == "present":
                    if p.end == "back":
                        ck.obl(sure(f, False), f"{label}:present", f"goes on after a key that is already present{lab} (stores {inserted(ev, p, KEY)})", at)
                    else:
                        ck.obl(sure(f, None if v is None else isinstance(v, Adt) and v.variant == "Err"), f"{label}:present", f"a key that is already present{lab} yields {v} instead of an error", at)
                elif kind in ("keyerr", "valerr"):
                    if kind == "valerr" and not read_value:
                        continue
                    if p.end == "back":
                        ck.obl(sure(f, False), f"{label}:{kind}", "goes on after an error of the source", at)
                    else:
                        ck.obl(sure(f, None if v is None else isinstance(v, Adt) and v.variant == "Err"), f"{label}:{kind}", f"an error of the source yields {v}", at)
                elif kind == "absent":
                    if p.end == "return":
                        # whatever the condition, a finished map may only follow the end of the source
                        ok = isinstance(v, Adt) and v.variant == "Ok"
                        ck.obl(False if ok else sure(f, None if v is None else False), f"{label}:absent", f"stops at a new key{lab} with {v}", at)
                        continue
                    ins = inserted(ev, p, KEY)
                    ok = len(ins) == 1
                    ck.obl(sure(f, ok if (None, None) not in ins else None), f"{label}:absent", f"a new key{lab} is stored {len(ins)} times", at)
                    if ok:
                        k, x = ins[0]
                        ck.obl(sure(f, None if k is None or x is None else k == KEY and x == VAL), f"{label}:absent:pair", f"a new key{lab} is stored as {ins[0]}", at)
                elif p.end == "return":
                    good = isinstance(v, Adt) and v.variant == "Ok"
                    ck.obl(sure(f, None if v is None else good), f"{label}:end", f"the end of the source yields {v}", at)
                    # the result is the map the iterations filled
                    t = e.terms[e.strip(p.val)]
                    while t[0] == "A" and len(t[3]) == 1:
                        t = e.terms[e.strip(t[3][0])]
                    changed = [c.last for c in p.all_calls() if "IndexMap" in c.name and c.last in ("clear", "pop", "retain", "truncate", "swap_remove", "shift_remove", "reverse", "sort_keys", "split_off", "drain")]
                    ck.obl(sure(f, not changed), f"{label}:end:kept", f"the finished map is changed by {changed}", at)
                    # entries announced but not read: asking the source again is the only way to end
                    if not touched:
                        ck.obl(sure(f, False if p.variants else None), f"{label}:end:asked", "ends without asking the source for another key", at)
            if not seen and kind != "end":
                ck.undecided(f"{label}:{kind}", "no path")
    return True


def check(ck):
    R = run.analyse(dict(entries=["mapping*|*", "value::de*|*ValueVisitor*", "value::de|<Value as Deserialize>*"], opaque=["*partial_cmp::total_cmp*", "*iter_cmp_by*"], max_paths=4000))
    vs = R.find(lambda n: n.endswith("as Visitor>::visit_map"), module="mapping::[<Mapping as Deserialize>::deserialize]")
    if not vs:
        vs = R.find(lambda n: n.endswith("as Visitor>::visit_map"), module="mapping*")
    ck.floor("mapping visitors", len(vs), 1)
    for e in vs:
        if e.error or e.cut:
            ck.undecided(e.name, "analysis cut")
            continue
        ck.use(e)
        if not loop(ck, e, "Mapping", False):
            ck.undecided("Mapping", "does not read keys itself")
    d = ck.need(R, "<Mapping as Deserialize>::deserialize")
    if d:
        for p in d.paths:
            cs = [c for c in p.calls() if c.last.startswith("deserialize_")]
            ck.obl(None if len(cs) != 1 else cs[0].last in ("deserialize_map", "deserialize_any"), "Mapping::deserialize", f"a Mapping is requested by {[c.last for c in cs]}", f"{d.name} {p.span}")
    # an untyped value builds mappings through the same visitor
    e = ck.need(R, "<ValueVisitor as Visitor>::visit_map", "value::de::[<Value as Deserialize>::deserialize]")
    if e and not loop(ck, e, "Value", True):
        for res in (Ok(X("m")), Err(X("E"))):
            fns = {"call:deserialize_map": lambda ev, av, at, c: res, "call:deserialize": lambda ev, av, at, c: res, "call:deserialize_any": lambda ev, av, at, c: res}
            ev, rs = results(e, {e.params[1][0]: X("data")}, None, fns, ("return", "panic", "back"))

            def pred(r, p):
                if p.end != "return":
                    return False
                if not isinstance(r, Adt):
                    return None
                if res.variant == "Err":
                    return r.variant == "Err"
                x = r.fields.get("0")
                return r.variant == "Ok" and (None if x is None else isinstance(x, Adt) and x.variant == "Mapping" and (None if x.fields.get("0") is None else x.fields["0"] == X("m")))
            judge(ck, f"Value::visit_map:{res.variant}", e, rs, pred, "an untyped mapping must be the Mapping its visitor builds")
        for p in e.paths:
            cs = [c for c in p.calls() if c.last.startswith("deserialize")]
            ok = [c for c in cs if c.last in ("deserialize_map", "deserialize") and any("mapping::" in a or "Mapping" in a or "Visitor" in a for a in c.targs + [c.selfty])]
            ck.obl(True if len(ok) == 1 and len(cs) == 1 else None, "Value::visit_map:delegates", "", f"{e.name} {p.span}")
    # the error names the key
    e = R.find("<DuplicateKeyError as Display>::fmt")
    if len(e) == 1 and not e[0].cut and not e[0].error:
        e = ck.use(e[0])
        for name, payload in (("Null", None), ("Bool", X("b")), ("Number", X("n")), ("String", X("s")), ("Sequence", X("q")), ("Mapping", X("m")), ("Tagged", X("t"))):
            fns = {"call:key": lambda ev, av, at, c: Val(name, payload), "call:get_key": lambda ev, av, at, c: Val(name, payload)}
            ev = Ev(e, {}, None, fns)
            for f, p, ch in ev.outcomes():
                ev.at(ch)
                ps = fmtargs.written(e, p, e.params[1][0])
                if ps is None:
                    ck.undecided(f"DuplicateKeyError:{name}", "pieces not recognised")
                    continue
                if any(c.last in ("write_str", "write_fmt", "write_char", "fmt") and p.variants(c.ret) == {"Err"} for c in p.calls()):
                    continue
                lits = "".join(x[1] for x in ps if x[0] == "lit")
                args = [ev.ev(x[1]) for x in ps if x[0] == "arg"]
                ck.obl(sure(f, "duplicate entry" in lits), f"DuplicateKeyError:{name}:text", f"a duplicate key reads {ps}", e.span)
                if name in ("Bool", "Number", "String"):
                    ck.obl(sure(f, None if args and args[0] is None else args == [payload] or args == [Val(name, payload)]), f"DuplicateKeyError:{name}", f"a duplicate {name} key is described by {args}", e.span)
                elif name == "Null":
                    ck.obl(sure(f, "null" in lits or None), f"DuplicateKeyError:{name}", f"a duplicate null key reads {lits!r}", e.span)
    else:
        ck.undecided("DuplicateKeyError", "not found")
