import re
from absval import *
from sim import FNS
from scalar import STR_FNS
from sersim import SER_GROUP
from destream import error_kind
import emitrule
import run

WHAT = ("Every call in the serializer, the emitter wrapper, the loader and the top-level deserializer that can report an I/O failure is made to fail on every path it lies on: the path must end with that very error and not with success, with another error or with a panic. "
        "The handler given to the emitter must hand the whole buffer to the writer, report failure exactly when the writer fails, and keep the writer's error; flush() and into_inner() must flush the writer before they report success; readers are read to their end.")
ASSUMES = ["user-written Serialize implementations and writers report the errors they meet", "starting the stream writes nothing, so it cannot fail"]
OTHER = ("fmt", "write_fmt", "write_str", "write_char", "pad", "pad_integral", "try_from", "try_into", "from_str", "parse", "from_utf8")
EMIT = ["*Emitter::emit", "*Emitter::flush", "*Emitter::new", "*Emitter::into_inner"]
GROUPS = [dict(entries=SER_GROUP["entries"] + ["ser|ser::to_*"], opaque=SER_GROUP["opaque"], max_paths=8000),
          dict(entries=["libyaml::emitter|*"], max_paths=6000),
          dict(entries=["loader|*", "de|Deserializer::*", "de|Deserializer as *", "de|<Deserializer as *", "de|de::from_reader"], opaque=["*Parser::*", "*Loader::next_document", "*DeserializerFromEvents*", "*Error as From<*"], max_paths=4000)]


def fallible(e, c):
    """'io' for a call whose error is an io::Error, 'crate' for one that carries it in the crate's own error, or None"""
    ty = e.ty(c.ret) or "" if c.ret is not None else ""
    if not ty.startswith("Result<") or c.last in OTHER or "fmt::" in c.name:
        return None
    # Write and Read methods fail with io::Error; the crate's own wrappers with an enum that has an Io variant
    if "io::" in c.name and c.last.startswith(("write", "read", "flush", "copy")):
        return "io"
    return "crate" if re.search(r",\s*Error>$", ty) else None


def carries(v, x, depth=0):
    """x reached through constructors only: True, False, or None when part of v is unknown"""
    if v == x:
        return True
    if isinstance(v, Adt):
        rs = [carries(f, x, depth + 1) for f in v.fields.values()]
        return True if True in rs else None if None in rs else False
    if v is None:
        return None
    return False


def failing(ck, e, keep=False):
    """each fallible call on each path made to fail"""
    n = 0
    fns = dict(FNS)
    fns.update(STR_FNS)
    for p in e.paths:
        if p.end not in ("return", "panic"):
            continue
        cs = list(p.calls())
        for ci, c in enumerate(cs):
            kind = fallible(e, c)
            if not kind:
                continue
            io = X("the I/O error")
            tries = [Adt("Result", "Err", {"0": io})] if kind == "io" else [Adt("Result", "Err", {"0": Adt("Error", "Io", {"0": io})}), Adt("Result", "Err", {"0": X("the I/O error")})]
            # an Error that is an enum with an Io variant is told by the paths that look at it
            looks = any(k[0] == "d" or (k[0] == "f" and len(k) > 2 and k[2] == "Io") for t, k in e.terms.items() if k[0] == "f" and _under(e, t, c.ret))
            err = tries[0] if kind == "io" or looks else tries[-1]
            ev = Ev(e, {c.ret: err}, fns=fns)
            if ev.feasible(p) == "no":
                continue
            n += 1
            key = f"{e.name}:{c.last}"
            where = f"{e.name} {p.span}"
            if p.end == "panic":
                # a failed unwrap, not an overflow or a bug elsewhere
                about = any(_about(e, t, c.ret) for t in p.facts)
                started = any(e.terms[a][0] == "A" and "StreamStart" in str(e.show(a)) for a in c.args) or "StreamStart" in "".join(e.show(a) for a in c.args)
                if about and not started and "unwrap" in str(p.val):
                    ck.obl(False, key, f"a failure of {c.last} makes it panic", where)
                continue
            if not (e.ty(p.val) or "").startswith(("Result<", "Option<")):
                # the handler is judged on its own
                continue
            v = ev.ev(p.val)
            if "StreamStart" in "".join(e.show(a) for a in c.args):
                continue
            got = carries(v, io)
            if v is None:
                # the answer is another call's: suppose that one succeeds
                late = {x.ret: Adt("Result", "Ok", {"0": X("value")}) for x in cs[ci + 1:] if (e.ty(x.ret) or "").startswith("Result<") and x.ret not in ev.env}
                if late:
                    ev2 = Ev(e, {c.ret: err, **late}, fns=fns)
                    v2 = ev2.ev(p.val) if ev2.feasible(p) != "no" else None
                    if isinstance(v2, Adt) and v2.variant == "Ok":
                        ev, v, got = ev2, v2, False
            if got:
                if isinstance(v, Adt) and v.variant == "Ok":
                    got = False
                ck.obl(got, key, f"a failure of {c.last} is reported as success", where)
                continue
            if keep:
                outs = [ev.ev(t) for t in list(p.out.values()) + list(p.heap.values())]
                if any(carries(o, io) for o in outs):
                    ck.obl(True, key)
                    continue
                if any(o is None for o in outs):
                    ck.obl(None, key)
                    continue
            ok = isinstance(v, Adt) and v.variant == "Ok"
            ck.obl(False if ok or got is False else None, key, f"a failure of {c.last} is " + ("reported as success" if ok else f"reported as {v!r} without the I/O error"), where)
    return n


def _under(e, t, root):
    while True:
        if t == root:
            return True
        k = e.terms[t]
        if k[0] not in ("f", "d"):
            return False
        t = k[1]


def _about(e, t, root):
    return root in e.subterms(t) if t in e.terms else False


def kept(e, p, ev, w):
    """whether the writer's own error ends up in the memory behind the handler's data pointer"""
    io = X("the I/O error")
    roots = list(p.out.values()) + list(p.heap.values())
    subs = {x for t in roots for x in e.subterms(t)}
    if any(carries(ev.ev(x), io) for x in subs if (e.ty(x) or "").startswith(("Option<", "Error", "Result<"))):
        return True
    hit = [x for x in subs if any(_about(e, x, c.ret) for c in w)]
    part = {c.ret for c in p.calls() if c.last in ("kind", "raw_os_error", "to_string") and any(_about(e, a, x.ret) for a in c.args for x in w)}
    if not hit and part & subs and not any(e.show(c.ret) in e.show(t) for t in subs for c in w):
        return False
    if hit:
        # only a summary of the error is kept
        lossy = [x for x in hit if e.terms[x][0] == "a" and str(e.terms[x][1]).rsplit("::", 1)[-1] in ("kind", "raw_os_error", "to_string")]
        under = {y for x in lossy for y in e.subterms(x)}
        bare = [x for x in hit if e.terms[x][0] == "f" and (e.ty(x) or "") == "Error" and x not in under]
        return False if lossy and not bare else None
    # an error already there may be left alone
    data = e.params[0][0]
    looked = any(_about(e, t, data) and not any(_about(e, t, c.ret) for c in w) for t in p.facts)
    # what the writer did to itself is not a copy of its error
    own = [t for t in roots if not (e.terms[t][0] == "y" and e.terms[t][1] == "havoc" and e.call_by_uid(e.terms[t][2]) is not None and e.call_by_uid(e.terms[t][2]).ret in {c.ret for c in w})]
    return None if looked or own else False


def handler(ck, e):
    """the function libyaml writes through: (data, buffer, size) -> nonzero on success"""
    data, buf, size = [p[0] for p in e.params]
    n = 0
    for p in e.paths:
        if p.end != "return":
            continue
        where = f"{e.name} {p.span}"
        w = [c for c in p.calls() if "io::" in c.name and c.last.startswith("write")]
        for fails in (False, True):
            ev = Ev(e, {c.ret: Adt("Result", "Err", {"0": X("the I/O error")}) if fails else Adt("Result", "Ok", {"0": Adt("tuple", None, {})} if c.last == "write_all" else {}) for c in w}, fns=FNS)
            if ev.feasible(p) == "no":
                continue
            v = ev.ev(p.val)
            n += 1
            if not isinstance(v, I):
                ck.obl(None, "handler")
                continue
            if not w:
                # an empty buffer needs no write
                some = Ev(e, {size: I(1, 2 ** 64 - 1)}, fns=FNS).feasible(p)
                if not fails and some != "no":
                    ck.obl(None if v == I(0, 0) else False if some == "yes" or not p.facts else None, "handler:unwritten", "the emitter is told its output was written though nothing was handed to the writer", where)
                continue
            if fails:
                ck.obl(v == I(0, 0) if v.const is not None else None, "handler:failure", "the emitter is told its output was written though the writer failed", where)
                ck.obl(kept(e, p, ev, w), "handler:kept", "the writer's error is not kept for the caller", where)
                continue
            ck.obl((v.lo > 0 or v.hi < 0) if v.const is not None else None, "handler:success", "the emitter is told its output was not written though it was", where)
            alls = [c for c in w if c.last == "write_all"]
            if not alls:
                # a single write may take a part of the buffer: the count must be looked at
                looked = any(_about(e, t, c.ret) and "Ok" in e.show(t) for t in p.facts for c in w) or e.cut
                ck.obl(None if looked else False, "handler:short", "output is handed to the writer with a call that may write a part of it, and the count is not looked at", where)
                continue
            s = e.show(alls[0].args[-1])
            b, z = e.show(buf), e.show(size)
            ok = b in s and z in s and len(alls) == 1
            plain = re.fullmatch(r"[\w:<>]*from_raw_parts(_mut)?<u8>\(\(?" + re.escape(b) + r"[^,]*, \(?" + re.escape(z) + r"( as IntToInt:usize\))?\)", s)
            other = b in s and (re.search(r" (Sub|Add|Div|BitAnd|Shr|Mul|Rem) |(\b|_)min(<\w+>)?\(", s) is not None or z not in s)
            ck.obl(True if plain and ok else False if other and len(alls) == 1 else None, "handler:all", f"the writer is handed {s} instead of the whole buffer", where)
    ck.floor("handler outcomes", n, 2)


def flushes(ck, e, what):
    n = 0
    for p in e.paths:
        if p.end != "return":
            continue
        ev = Ev(e, {}, fns=FNS)
        v = ev.ev(p.val)
        if not (isinstance(v, Adt) and v.variant == "Ok" or v is None):
            continue
        n += 1
        fl = [c for c in p.calls() if c.last == "flush"]
        known = all(c.kind != "rec" for c in p.calls())
        ck.obl(True if fl else False if known and v is not None else None, f"{e.name}:flush", f"{what} reports success without flushing the writer", f"{e.name} {p.span}")
    ck.count("flush paths", n)


def check(ck):
    ser, emi, lod = [run.analyse(g) for g in GROUPS]
    n = 0
    for R, keep in ((ser, False), (emi, False), (lod, True)):
        for e in R.entries:
            if e.error or e.cut:
                ck.undecided(e.name, "analysis cut")
                continue
            ck.use(e)
            n += failing(ck, e, keep)
    ck.floor("failing calls", n, 300)
    emitrule.obligations(ck, "fail")
    # failures libyaml reports while writing
    for e in emi.entries:
        if e.error or e.cut or not any(c.last in ("yaml_emitter_flush", "yaml_emitter_emit") for p in e.paths for c in p.calls()):
            continue
        fns = dict(FNS)
        for f in ("yaml_emitter_flush", "yaml_emitter_emit"):
            fns["call:" + f] = lambda ev, av, a, c: emitrule.status(True)
        for p in e.paths:
            if p.end != "return" or not any(c.last in ("yaml_emitter_flush", "yaml_emitter_emit") for c in p.calls()):
                continue
            ev = Ev(e, {}, fns=fns)
            f = ev.feasible(p)
            if f == "no":
                continue
            v = ev.ev(p.val)
            isr = isinstance(v, Adt) and v.variant in ("Ok", "Err")
            ck.obl(None if not isr else v.variant == "Err", f"{e.name}:libyaml", "output libyaml could not write is reported as written", f"{e.name} {p.span}")
    hs = [e for e in emi.entries if [p[1] for p in e.params] == ["*mut c_void", "*mut u8", "u64"] and not e.error]
    for e in hs:
        handler(ck, e)
    if not hs:
        ck.undecided("handler", "no write handler with libyaml's signature")
    for nm, what in (("flush", "flush()"), ("into_inner", "into_inner()")):
        r = [e for e in ser.entries if e.name.startswith("Serializer<") and e.name.endswith("::" + nm)]
        if not r:
            ck.violation(f"missing:{nm}", f"the text serializer has no {what}", "ser")
            continue
        flushes(ck, r[0], what)
    for e in emi.entries:
        if e.name.endswith("Emitter::flush"):
            flushes(ck, e, "the emitter's flush")
    # readers are read to their end
    k = 0
    for e in lod.entries:
        for p in e.paths:
            for c in p.calls():
                if "io::" in c.name and "read" in c.name and c.last.startswith("read"):
                    k += 1
                    ck.obl(True if c.last in ("read_to_end", "read_to_string") else None if e.cut or any(_about(e, t, c.ret) and "Ok" in e.show(t) for t in p.facts) else False, f"{e.name}:read", f"the reader is read with one {c.last}, which may stop before its end", f"{e.name} {p.span}")
    ck.floor("reads", k, 1)
