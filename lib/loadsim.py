"""The document loader driven through abstract event histories."""
from sim import *
from sysevents import result_is

LOADER_GROUP = dict(entries=["loader|*"], opaque=["*Parser::*"], max_paths=4000)


def Ok(v):
    return Adt("Result", "Ok", {"0": v})


def Err(v):
    return Adt("Result", "Err", {"0": v})


def pair(ev, mark):
    return Ok(Adt("tuple", None, {"0": ev, "1": X(mark)}))


ANCHORED = {"S": ("Scalar", ("tag", "value", "style", "repr")), "Q": ("SequenceStart", ("tag",)), "M": ("MappingStart", ("tag",))}
PLAIN = {"q": "SequenceEnd", "m": "MappingEnd", "<": "StreamStart", ">": "StreamEnd", "(": "DocumentStart", ")": "DocumentEnd"}


def name(tok):
    return tok[1:].rstrip("!")


def payload(f, tok, i):
    """tags, styles and texts of the i-th event: tokens ending in ! are tagged and quoted"""
    t = tok.endswith("!")
    return {"tag": Some(X(f"tag{i}")) if t else NONE, "style": Adt("ScalarStyle", "DoubleQuoted" if t else "Plain"), "repr": Some(X(f"repr{i}")) if t else NONE}.get(f, X(f"{f}{i}"))


def parts(doc):
    """(events, alias table) of an abstract document, told apart by what they hold; None for a part that is not understood"""
    if not isinstance(doc, Adt):
        return None, None
    ls = {n: v for n, v in doc.fields.items() if isinstance(v, L)}
    evs = [n for n, v in ls.items() if any(isinstance(x, Adt) and isinstance(x.fields.get("0"), Adt) and x.fields["0"].name.endswith("Event") for x in v.xs)] or (["events"] if "events" in ls else list(ls) if len(ls) == 1 else [])
    n = evs[0] if len(evs) == 1 else None
    al = [v for m, v in doc.fields.items() if m != n and (isinstance(v, M) or isinstance(v, L))]
    return doc.fields[n] if n else None, al[0] if len(al) == 1 else None


def event(tok, i):
    """abstract parser result for a token: S Q M (with an optional anchor name), q m, *name, < > ( ), ! (error)"""
    if tok[0] in ANCHORED:
        v, fs = ANCHORED[tok[0]]
        a = Some(X("name:" + name(tok))) if name(tok) else NONE
        return pair(Adt("Event", v, {"0": Adt(v, None, dict({"anchor": a}, **{f: payload(f, tok, i) for f in fs}))}), f"mark{i}")
    if tok[0] == "*":
        return pair(Adt("Event", "Alias", {"0": X("name:" + tok[1:])}), f"mark{i}")
    if tok == "!":
        return Err(X(f"error{i}"))
    return pair(Adt("Event", PLAIN[tok]), f"mark{i}")


class Load:
    def __init__(self, R):
        es = [e for e in R.entries if e.module == "loader" and any(p.end == "return" and (e.ty(p.val) or "").replace("std::option::", "").startswith("Option<Document") for p in e.paths)]
        self.e = es[0] if len(es) == 1 else None
        self.why = None if self.e else "no unique function of the loader that yields a document"
        if self.e and (self.e.cut or self.e.error):
            self.why, self.e = "analysis cut", None
        if not self.e:
            return
        e = self.e
        self.selfs = [t for t, k in e.terms.items() if k[0] == "d" and e.terms[k[1]][:2] == ["y", "param"]] + [e.params[0][0]]
        self.sim = Sim(e, lambda c: result_is(e.ty(c.ret), "Event", "Mark"))
        self.ty = (e.ty(self.selfs[0]) or "").partition("<")[0]

    def start(self, R):
        """abstract loader as Loader::new leaves it, from the constructor's own result"""
        for e in R.entries:
            if e.module == "loader" and e is not self.e:
                for p in e.paths:
                    if p.end == "return":
                        k = e.terms[p.val]
                        if k[0] == "A" and k[2] == "Ok":
                            v = Ev(e, {}, fns=FNS).ev(k[3][0])
                            if isinstance(v, Adt) and v.name == self.ty:
                                fs = {}
                                for n, x in v.fields.items():
                                    fs[n] = Some(X("parser")) if isinstance(x, Adt) and x.variant == "Some" else X("parser") if x is None else x
                                return Adt(v.name, None, fs)
        return None

    def call(self, state, inputs):
        """-> (value, state afterwards, inputs used, path) or None"""
        r = self.sim.run({t: state for t in self.selfs}, inputs)
        if r is None:
            return None
        p, ev, used = r
        if p.end != "return":
            return (p.end, None, used, p)
        out = ev.ev(p.out[0]) if 0 in p.out else state
        return ev.ev(p.val), out, used, (p, ev)
