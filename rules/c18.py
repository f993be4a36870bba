import re
from absval import *
from sim import FNS
import emitrule
import run
from sysevents import source_entry

WHAT = ("Every path of the functions that create, drive and drop the low-level parser and emitter is followed as a typestate: initialized once and successfully before any other use, released exactly once by a destructor and by nothing else, never leaked or duplicated on the way into its box; "
        "the parser's event is released once after a successful parse and never after a failed one, and nothing made from it is read after its release; lengths and NUL-terminated texts handed over are exact or refused.")
ASSUMES = ["unsafe-libyaml's functions keep their own contracts (an event handed to yaml_emitter_emit is released by it)", "values are dropped where the compiler says they are; panics while reporting an allocation failure are not followed"]
GROUPS = [dict(entries=["libyaml::parser|*", "libyaml::emitter|*", "libyaml::util|*"], max_paths=8000, structure=True), dict(entries=["loader|*"], opaque=["*Parser::*"], max_paths=4000)]
KINDS = {"parser": ("yaml_parser_initialize", "yaml_parser_delete"), "emitter": ("yaml_emitter_initialize", "yaml_emitter_delete")}
LEAKS = ("core::mem::forget", "core::mem::manually_drop::ManuallyDrop::new", "alloc::boxed::Box::leak", "alloc::boxed::Box::into_raw")
UNLEAKS = ("ManuallyDrop::drop", "ManuallyDrop::into_inner", "ManuallyDrop::take", "from_raw", "drop_in_place", "dealloc", "from_non_null")


def releases(ck, R):
    """who releases the parser and the emitter, and how often on each path"""
    for kind, (init, dele) in KINDS.items():
        sites = [(f, c) for f in R.structure for c in f["calls"] if c[0].endswith("::" + dele)]
        drops = [s for s in sites if re.search(r" as Drop>::drop$", s[0]["fn"])]
        others = [s for s in sites if s not in drops]
        if not sites:
            ck.obl(False, f"{kind}:released", f"nothing calls {dele}: the {kind}'s buffers are leaked", "libyaml")
            continue
        if drops:
            ck.obl(True, f"{kind}:released")
            for f, c in others:
                # a helper of the destructor, or a second release
                callers = [g for g in R.structure if any(x[0].rsplit("::", 1)[-1] == f["fn"].rsplit("::", 1)[-1] for x in g["calls"])]
                only = callers and all(re.search(r" as Drop>::drop$", g["fn"]) for g in callers)
                ck.obl(None if only else False, f"{kind}:twice:{f['fn']}", f"{dele} is called here and again when the value is dropped", f"{f['fn']} {c[3]}")
        else:
            ck.undecided(f"{kind}:released", "released by something other than a destructor")
        for e in R.entries:
            if not any(c.name.endswith("::" + dele) for p in e.paths for c in p.calls()):
                continue
            if e.cut or e.error:
                ck.undecided(e.name, "analysis cut")
                continue
            for p in e.paths:
                if p.end != "return":
                    continue
                cs = [c for c in p.calls() if c.name.endswith("::" + dele)]
                w = f"{e.name} {p.span}"
                if e.name.endswith(" as Drop>::drop"):
                    ck.obl(len(cs) == 1, f"{kind}:drop", f"the destructor calls {dele} {len(cs)} times on a path", w)
                    for c in cs:
                        t = e.strip(c.args[0])
                        own = e.params[0][0] in e.subterms(c.args[0])
                        ck.obl(True if own else None, f"{kind}:drop:own", "", w)
                        after = [x for x in p.calls() if x.pos > c.pos and "unsafe_libyaml" in x.name]
                        ck.obl(not after, f"{kind}:drop:after", f"{after[0].last if after else ''} is called after {dele}", w)
                elif len(cs) > 1:
                    ck.obl(False, f"{kind}:twice", f"{dele} is called {len(cs)} times on a path", w)


def boxes(ck, R):
    """the box that keeps the parser or emitter in place: never leaked, never duplicated"""
    owning = re.compile(r"\b(Emitter|Parser|EmitterPinned|ParserPinned|Serializer|Loader)\b|^Owned<T|^Owned<(Emitter|Parser)")
    n = 0
    for f in R.structure:
        names = [c[0] for c in f["calls"]]
        frees = [x for x in names if any(x.endswith(u) or u in x.rsplit("::", 1)[-1] for u in UNLEAKS)]
        for c in f["calls"]:
            if c[0] in LEAKS and c[1] and owning.search(c[1][0]) and "MaybeUninit" not in c[1][0]:
                n += 1
                ck.obl(None if frees else False, f"leak:{f['fn']}", f"{c[0].rsplit('::', 1)[-1]}::<{c[1][0]}> keeps the parser or emitter from being released", f"{f['fn']} {c[3]}")
    # a destructor over a raw pointer it owns must give the memory back
    for f in R.structure:
        m = re.match(r"<(Owned\b.*) as Drop>::drop$", f["fn"])
        if not m:
            continue
        n += 1
        names = [c[0].rsplit("::", 1)[-1] for c in f["calls"] if not c[4]]
        back = [x for x in names if x in ("from_raw", "drop_in_place", "dealloc", "from_non_null", "from_raw_in")]
        freed = [x for x in f["drops"] if x.startswith("Box<")]
        lost = [x for x in names if x in ("forget", "leak", "into_raw") or x == "new" and any("ManuallyDrop" in c[0] for c in f["calls"])]
        ck.obl(False if not back or lost else True if freed or "drop_in_place" in back else None, "box:freed", f"the owner's destructor {'forgets what it owns' if lost else 'never gives its memory back'}", f"{f['fn']} {f['span']}")
    for e in R.entries:
        if e.cut or e.error:
            continue
        for p in e.paths:
            if p.end != "return":
                continue
            for d in [it for it in p.items if it[0] == "drop"]:
                k = e.strip(d[2])
                if not (e.ty(k) or "").startswith("Owned<"):
                    continue
                n += 1
                ptrs = {t for t in e.subterms(p.val) if e.terms[t][0] == "f" and e.terms[t][1] == k}
                same = k in e.subterms(p.val) or ptrs
                ck.obl(not same, f"box:duplicated:{e.name}", "the memory is given back although the value returned still points to it", f"{e.name} {p.span}")
    return n


def creation(ck, R):
    """initialized once, first, and successfully wherever a value is returned"""
    n = 0
    for e in R.entries:
        for kind, (init, dele) in KINDS.items():
            if not any(c.last == init for p in e.paths for c in p.calls()):
                continue
            if e.cut or e.error:
                ck.undecided(e.name, "analysis cut")
                continue
            ck.use(e)
            fails = dict(FNS)
            fails["call:" + init] = lambda ev, av, a, c: emitrule.status(True)
            big = 2 ** 33 + 5
            lens = dict(FNS)
            lens["len"] = lens["call:len"] = lambda ev, av, a, c: I(big, big)
            for p in e.paths:
                cs = [c for c in p.calls() if "unsafe_libyaml" in c.name]
                ini = [i for i, c in enumerate(cs) if c.last == init]
                w = f"{e.name} {p.span}"
                n += 1
                if ini and ini[0] != 0 and any(c.last.startswith(f"yaml_{kind}_") for c in cs[:ini[0]]):
                    ck.obl(False, f"{kind}:order", f"{cs[0].last} is called before {init}", w)
                if not ini and any(c.last.startswith(f"yaml_{kind}_") for c in cs):
                    ck.obl(False, f"{kind}:uninitialized", f"{cs[0].last} is called without {init}", w)
                if p.end != "return":
                    continue
                ck.obl(len(ini) == 1, f"{kind}:once", f"{init} is called {len(ini)} times on the way to a new value", w)
                if Ev(e, {}, fns=fails).feasible(p) != "no" and ini:
                    ok = (e.ty(p.val) or "").startswith(("Option<", "Result<"))
                    ck.obl(None if ok else False, f"{kind}:checked", f"a value is made although {init} failed", w)
                for c in cs:
                    if c.last == "yaml_parser_set_input_string":
                        v = Ev(e, {}, fns=lens).ev(c.args[2])
                        ck.obl(v == I(big, big) if isinstance(v, I) and v.const is not None else None, "parser:length", f"the length of an input of {big} bytes is given as {v!r}", w)
                        base = lambda t: {x for x in e.subterms(t) if e.terms[x][0] == "y"}
                        a, b = base(c.args[1]), base(c.args[2])
                        ck.obl(None if not a or not b else True if a & b else None, "parser:input", "", w)
                    if c.last == "yaml_parser_set_encoding":
                        v = Ev(e, {}).ev(c.args[1])
                        ck.obl(v.variant == "YAML_UTF8_ENCODING" if isinstance(v, Adt) and v.variant else None, "parser:encoding", f"the parser is told the input is {v!r}", w)
                want = {"parser": "yaml_parser_set_input_string", "emitter": "yaml_emitter_set_output"}[kind]
                ck.obl(True if any(c.last == want for c in cs) else None, f"{kind}:{want}")
    return n


def events(ck, R):
    """the parser's event: released once after success, never after failure, and read only before"""
    e = source_entry(R)
    n = 0
    if e is None:
        ck.undecided("event", "no function yields the next event")
        return n
    ck.use(e)
    if e.cut or e.error:
        ck.undecided("event", "analysis cut")
        return n
    st = lambda x: dict(FNS, **{"call:yaml_parser_parse": lambda ev, av, a, c: emitrule.status(x)})
    for p in e.paths:
        cs = list(p.calls())
        parse = [i for i, c in enumerate(cs) if c.last == "yaml_parser_parse"]
        dele = [i for i, c in enumerate(cs) if c.last == "yaml_event_delete"]
        w = f"{e.name} {p.span}"
        n += 1
        if not parse:
            ck.obl(not dele, "event:none", "an event that was never made is released", w)
            continue
        good, bad = Ev(e, {}, fns=st(False)).feasible(p) != "no", Ev(e, {}, fns=st(True)).feasible(p) != "no"
        if bad and dele:
            ck.obl(False, "event:failed", "the event is released although parsing failed, so it was never made", w)
        if not good or p.end != "return":
            # a path taken when parsing failed, or one that ends in a panic
            continue
        if bad:
            ck.obl(None, "event:unchecked")
        ck.obl(len(parse) == 1, "event:once", f"{len(parse)} events are parsed for one that is returned", w)
        ck.obl(len(dele) == 1, "event:released", f"the event is released {len(dele)} times", w)
        if len(dele) == 1:
            d, q = cs[dele[0]], cs[parse[-1]]
            ck.obl(dele[0] > parse[-1], "event:order", "the event is released before it is parsed", w)
            late = [t for t in e.subterms(p.val) if e.terms[t][:3] == ["y", "havoc", d.uid]]
            ck.obl(not late, "event:late", "what is returned is read from the event after it was released", w)
            mine = any(e.terms[x][:3] == ["y", "havoc", q.uid] for x in e.subterms(d.args[0]))
            ck.obl(True if mine else None, "event:same", "", w)
    # a parser that has failed is not driven again
    again = []
    for p in e.paths:
        if not any(c.last == "yaml_parser_parse" for c in p.calls()):
            continue
        guard = any(e.terms[x][0] == "f" and e.terms[x][3] == "error" for t in p.facts for x in e.subterms(t))
        if not guard:
            again.append(p)
    return n, bool(again), e


def handed_over(ck, R):
    """an event given to the emitter belongs to it, whether or not it could be written"""
    n = 0
    for e in R.entries:
        if e.cut or e.error:
            continue
        for p in e.paths:
            cs = list(p.calls())
            em = [c for c in cs if c.last == "yaml_emitter_emit"]
            if not em:
                continue
            n += 1
            dele = [c for c in cs if c.last == "yaml_event_delete"]
            ck.obl(not dele, "emit:released", "an event handed to the emitter, which releases it, is released again", f"{e.name} {p.span}")
            ck.obl(len(em) == 1, "emit:twice", "an event is handed to the emitter twice, which releases it twice", f"{e.name} {p.span}")
    return n


def taken(ck, R):
    """a field moved out of the pinned value must be replaced, as its destructor will run"""
    n = 0
    for e in R.entries:
        if e.cut or e.error or not e.name.endswith("::into_inner"):
            continue
        for p in e.paths:
            if p.end != "return":
                continue
            k = e.terms[e.strip(p.val)]
            if k[0] != "f" or e.params[0][0] not in e.subterms(p.val):
                continue
            n += 1
            upd = any(e.terms[t][0] == "a" and str(e.terms[t][1]).startswith("update:") or "update:" in e.show(t) for t in list(p.out.values()) + list(p.heap.values()))
            fs = [f for f in R.structure if f["fn"] == e.name]
            names = [c[0] for f in fs for c in f["calls"]]
            copies = any(x in ("core::ptr::read", "ptr::read") or x.endswith("ptr::read") for x in names)
            forgets = any(x in LEAKS for x in names)
            ck.obl(True if upd else None if forgets else False if copies else None, "taken:replaced", "the writer is copied out of the emitter, which then drops it as well", f"{e.name} {p.span}")
    return n


def loader(ck, L, unguarded):
    if not unguarded:
        ck.obl(True, "parser:failed")
        return
    # the low-level parser would run on after an error: the loader must not ask it to
    for e in L.entries:
        if e.cut or e.error:
            ck.undecided(e.name, "analysis cut")
            continue
        for p in e.paths:
            if p.end != "return":
                continue
            for c in p.calls():
                if not (e.ty(c.ret) or "").startswith("Result<(") or c.last != "next":
                    continue
                ev = Ev(e, {c.ret: Adt("Result", "Err", {"0": X("error")})}, fns=FNS)
                if ev.feasible(p) == "no":
                    continue
                gone = False
                for t in list(p.out.values()) + list(p.heap.values()):
                    for x in e.subterms(t):
                        if e.terms[x][0] == "A" and (e.ty(x) or "").startswith("Loader"):
                            gone = gone or any((e.ty(y) or "").startswith("Option<Parser") and ev.ev(y) == NONE for y in e.terms[x][3])
                ck.obl(gone, "parser:failed", "a parser that has failed is kept, and asking it for another event runs it on", f"{e.name} {p.span}")


def check(ck):
    R, L = [run.analyse(g) for g in GROUPS]
    releases(ck, R)
    n = boxes(ck, R)
    n += creation(ck, R)
    r = events(ck, R)
    if r:
        n += r[0]
        loader(ck, L, r[1])
    n += taken(ck, R)
    n += handed_over(ck, R)
    for e in R.entries:
        ck.use(e)
    emitrule.obligations(ck, "length")
    ck.floor("lifecycle paths", n, 40)
