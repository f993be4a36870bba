"""What the emitter wrapper does with each event of the serializer: the libyaml initializer called, its arguments, and what
becomes of failures, evaluated on abstract events."""
from absval import *
from sim import FNS
from scalar import STR_FNS
import run

EMIT_GROUP = dict(entries=["libyaml::emitter|*"], max_paths=6000)
NULL = I(0, 0)
STYLES = {"Any": "YAML_ANY_SCALAR_STYLE", "Plain": "YAML_PLAIN_SCALAR_STYLE", "SingleQuoted": "YAML_SINGLE_QUOTED_SCALAR_STYLE", "Literal": "YAML_LITERAL_SCALAR_STYLE", "DoubleQuoted": "YAML_DOUBLE_QUOTED_SCALAR_STYLE", "Folded": "YAML_FOLDED_SCALAR_STYLE"}
INIT = {"StreamStart": "yaml_stream_start_event_initialize", "StreamEnd": "yaml_stream_end_event_initialize", "DocumentStart": "yaml_document_start_event_initialize", "DocumentEnd": "yaml_document_end_event_initialize",
        "Scalar": "yaml_scalar_event_initialize", "SequenceStart": "yaml_sequence_start_event_initialize", "SequenceEnd": "yaml_sequence_end_event_initialize", "MappingStart": "yaml_mapping_start_event_initialize", "MappingEnd": "yaml_mapping_end_event_initialize"}


def ptr(s):
    return I(1, 2 ** 64 - 1, "ptr:" + s)


def _as_ptr(ev, av, at, t):
    if av and isinstance(av[0], S):
        return ptr(av[0].s)


def status(fail):
    return Adt("Success", None, {"fail": B(fail), "ok": B(not fail)})


class Big(S):
    """text longer than the emitter's lengths can say"""


def _len(ev, av, at, t):
    if av and isinstance(av[0], Big):
        return I(2 ** 31, 2 ** 63 - 1)


class EmitRule:
    def __init__(self, ck):
        self.R = run.analyse(EMIT_GROUP)
        r = [e for e in self.R.entries if e.name.endswith("Emitter::emit")]
        self.e = r[0] if len(r) == 1 else None
        self.ok = False
        if self.e is None:
            # the wrapper is the crate's own: its name may change
            ck.undecided("emit", "no Emitter::emit in the emitter module")
            return
        ck.use(self.e)
        if self.e.cut or self.e.error:
            ck.undecided("emit", "analysis cut")
            return
        self.ok = True

    def events(self):
        """(label, abstract event, text, style, tag)"""
        for v in ("StreamStart", "StreamEnd", "DocumentStart", "DocumentEnd", "SequenceEnd", "MappingEnd"):
            yield v, Adt("Event", v, {}), None, None, None
        styles = self.styles()
        for tag in (None, "!t", "!\u00e9a"):
            tg = NONE if tag is None else Some(S(tag))
            for v, n in (("SequenceStart", "Sequence"), ("MappingStart", "Mapping")):
                yield v, Adt("Event", v, {"0": Adt(n, None, {"tag": tg})}), None, None, tag
            for st in styles:
                for text in ("", "a", "\u00e9\u4e2d\n"):
                    yield "Scalar", Adt("Event", "Scalar", {"0": Adt("Scalar", None, {"tag": tg, "value": S(text), "style": Adt("ScalarStyle", st, {})})}), text, st, tag

    def lengths(self):
        """texts as long as the numbers the code compares with"""
        ns = {k[1] for k in self.e.terms.values() if k[0] == "i" and isinstance(k[1], int) and 2 < k[1] <= 1 << 17}
        for n in sorted({m + d for m in sorted(ns)[:12] for d in (-1, 0, 1)}):
            for st in self.styles():
                for c in ("a", "\u00e9"):
                    text = c * (n // len(c.encode()))
                    yield "Scalar", Adt("Event", "Scalar", {"0": Adt("Scalar", None, {"tag": NONE, "value": S(text), "style": Adt("ScalarStyle", st, {})})}), text, st, None

    def styles(self):
        out = set()
        for e in self.R.entries:
            for t, k in e.terms.items():
                if k[0] == "D" and (e.ty(k[1]) or "").endswith("ScalarStyle") and len(k) > 2:
                    out |= set(k[2])
        return sorted(out & set(STYLES)) or ["Any", "Plain", "SingleQuoted", "Literal"]

    def run(self, event, init_fails=False, emit_fails=False, write_error=None):
        """-> [(feasibility, path, Ev, init call, emit call)]"""
        e = self.e
        fns = dict(FNS)
        fns.update(STR_FNS)
        fns.update({"as_ptr": _as_ptr, "as_mut_ptr": _as_ptr, "call:as_ptr": lambda ev, av, a, c: _as_ptr(ev, av, a, c.ret), "as_bytes": FNS["as_ref"], "as_bytes_with_nul": FNS["as_ref"], "len": lambda ev, av, a, t: _len(ev, av, a, t) or None})
        inits = set(INIT.values())
        for n in inits:
            fns["call:" + n] = lambda ev, av, a, c: status(init_fails)
        fns["call:yaml_emitter_emit"] = lambda ev, av, a, c: status(emit_fails)
        env = {e.params[1][0]: event}
        for t, k in e.terms.items():
            # the error the write handler left behind
            if k[0] == "f" and not k[2] and (e.ty(t) or "").startswith("Option<") and "Error" in (e.ty(t) or "") and e.terms[k[1]][0] in ("a", "y", "d"):
                env[t] = NONE if write_error is None else Some(X(write_error))
        ev = Ev(e, env, fns=fns)
        out = []
        for p in e.paths:
            f = ev.feasible(p)
            if f == "no" or p.end != "return":
                if f == "yes":
                    out.append((f, p, ev, None, None))
                continue
            ini = [c for c in p.calls() if c.last in inits]
            em = [c for c in p.calls() if c.last == "yaml_emitter_emit"]
            out.append((f, p, ev, ini, em))
        return out

    def result(self, p, ev):
        v = ev.ev(p.val)
        return v


def sample_args(ev, c):
    return [ev.ev(a) for a in c.args]


def obligations(ck, part):
    """part: 'text' scalar contents and styles; 'kind' which initializer; 'tag' tags and implicit flags; 'fail' failures; 'length' lengths"""
    r = EmitRule(ck)
    if not r.ok:
        return
    n = 0
    where = r.e.span
    short = lambda t: t if not isinstance(t, str) or len(t) < 40 else t[:12] + f"... ({len(t)} characters)"
    for label, event, text, style, tag in list(r.events()) + (list(r.lengths()) if part == "text" else []):
        rs = r.run(event)
        n += 1
        if not rs:
            ck.undecided(f"emit:{label}", "no outcome")
            continue
        sure = any(f == "yes" for f, *_ in rs)
        for f, p, ev, ini, em in rs:
            key = f"emit:{label}"
            sp = f"{r.e.name} {p.span}"
            if ini is None:
                ck.obl(False if f == "yes" and part in ("kind", "fail") else None, f"{key}:panic", f"emitting {event!r} panics", sp)
                continue
            v = ev.ev(p.val)
            bad = lambda cond: True if cond else False if f == "yes" else None
            if part == "kind":
                ck.obl(bad([c.last for c in ini] == [INIT[label]]), f"{key}:initializer", f"a {label} event is made with {[c.last for c in ini]}", sp)
                ck.obl(bad(len(em) == 1), f"{key}:once", f"a {label} event is handed to the emitter {len(em)} times", sp)
                if em and ini:
                    a, b = r.e.strip(em[0].args[1]), ini[0].uid
                    same = any(r.e.terms[x][:3] == ["y", "havoc", b] for x in r.e.subterms(em[0].args[1]))
                    ck.obl(True if same else None, f"{key}:event", "the event emitted is not seen to be the one initialized", sp)
                ck.obl(bad(isinstance(v, Adt) and v.variant == "Ok") if v is not None else None, f"{key}:result", f"a {label} event the emitter accepted gives {v!r}", sp)
                if label.startswith("Document"):
                    a = sample_args(ev, ini[0]) if ini else []
                    # an explicit document start or end writes a marker; without directives it is implicit
                    ck.obl(bad(a[-1] == TRUE) if a and a[-1] is not None else None, f"{key}:implicit", f"{label} is made with implicit = {a[-1] if a else '?'}", sp)
            if part == "fail":
                continue
            if label not in ("Scalar", "SequenceStart", "MappingStart") or len(ini) != 1 or ini[0].last != INIT[label]:
                continue
            a = sample_args(ev, ini[0])
            if part == "tag":
                ck.obl(bad(a[1] == NULL) if a[1] is not None else None, f"{key}:anchor", f"{label} is given an anchor", sp)
                t = a[2]
                if t is None:
                    ck.obl(None, f"{key}:tag")
                elif tag is None:
                    ck.obl(bad(t == NULL), f"{key}:tag", f"a {label} without a tag is given the tag {t!r}", sp)
                else:
                    ck.obl(bad(isinstance(t, I) and t.src == "ptr:" + tag + "\0"), f"{key}:tag", f"a {label} tagged {tag} is given {t!r} instead of that text with a NUL", sp)
                for i in ((5, 6) if label == "Scalar" else (3,)):
                    ck.obl(bad(a[i] == B(tag is None)) if a[i] is not None else None, f"{key}:implicit", f"a {label} with tag {tag} is made with implicit = {a[i]!r}", sp)
            if part == "text" and label == "Scalar":
                ck.obl(bad(isinstance(a[3], I) and a[3].src == "ptr:" + text) if a[3] is not None else None, f"{key}:value", f"the characters handed over for {short(text)!r} are {short(repr(a[3]))}", sp)
                want = len(text.encode())
                ck.obl(bad(a[4] == I(want, want)) if a[4] is not None else None, f"{key}:length", f"the length handed over for {short(text)!r} is {a[4]!r} instead of {want}", sp)
                st = a[7].variant if isinstance(a[7], Adt) else None
                ck.obl(bad(st == STYLES[style]) if st else None, f"{key}:style:{style}", f"a scalar to be written {style} is handed over as {st}", sp)
        if part in ("kind", "fail", "length") and label in ("Scalar", "DocumentStart", "DocumentEnd", "SequenceStart", "SequenceEnd", "MappingStart", "MappingEnd"):
            for init_fails, emit_fails, werr in ((True, False, None), (False, True, None), (False, True, "io error")):
                for f, p, ev, ini, em in r.run(event, init_fails, emit_fails, werr):
                    if ini is None:
                        # a panic while reporting
                        ck.obl(None, f"emit:{label}:report")
                        continue
                    v = ev.ev(p.val)
                    sp = f"{r.e.name} {p.span}"
                    bad = lambda cond: True if cond else False if f == "yes" or cond is False else None
                    if part == "fail":
                        isr = isinstance(v, Adt) and v.variant == "Err"
                        if not (isinstance(v, Adt) and v.variant in ("Ok", "Err")):
                            ck.obl(None, f"emit:{label}:failure")
                            continue
                        ck.obl(isr, f"emit:{label}:failure", f"a {label} event that could not be {'made' if init_fails else 'written'} is reported as written", sp)
                        if isr and werr:
                            x = v.fields.get("0")
                            if isinstance(x, Adt):
                                ck.obl(x.variant == "Io" and x.fields.get("0") == X(werr), f"emit:{label}:io", f"the writer's error is reported as {x!r}", sp)
                            else:
                                ck.obl(None, f"emit:{label}:io")
                    elif init_fails:
                        ck.obl(len(em) == 0, f"emit:{label}:unmade", f"a {label} event that could not be made is handed to the emitter", sp)
        if part == "length" and label == "Scalar" and text == "a" and tag is None:
            big = Adt("Event", "Scalar", {"0": Adt("Scalar", None, {"tag": NONE, "value": Big("long"), "style": Adt("ScalarStyle", style, {})})})
            for f, p, ev, ini, em in r.run(big):
                if ini is None:
                    continue
                v = ev.ev(p.val)
                if isinstance(v, Adt) and v.variant in ("Ok", "Err") and not (ini and v.variant == "Err"):
                    ck.obl(v.variant == "Err" and not ini, "emit:Scalar:long", "text longer than the emitter's length type is handed to it", f"{r.e.name} {p.span}")
                else:
                    ck.obl(None if f != "yes" else not ini, "emit:Scalar:long", "text longer than the emitter's length type is handed to it", f"{r.e.name} {p.span}")
    if part == "length":
        # libyaml reads a tag up to its NUL: one inside the tag would cut it off
        for v, nm in (("Scalar", "Scalar"), ("SequenceStart", "Sequence"), ("MappingStart", "Mapping")):
            for tag in ("!a\0b", "\0", "!a\0"):
                fs = {"tag": Some(S(tag))}
                if v == "Scalar":
                    fs.update(value=S("a"), style=Adt("ScalarStyle", "Plain", {}))
                for f, p, ev, ini, em in r.run(Adt("Event", v, {"0": Adt(nm, None, fs)})):
                    n += 1
                    if ini is None:
                        ck.obl(None, f"emit:{v}:nul")
                        continue
                    x = ev.ev(p.val)
                    if ini and not (isinstance(x, Adt) and x.variant == "Ok" and ev.ev(ini[0].args[2]) == I(1, 2 ** 64 - 1, "ptr:" + tag + "\0")):
                        # not known to be handed over as it is
                        ck.obl(None, f"emit:{v}:nul")
                        continue
                    ck.obl(not ini if f == "yes" or not ini else None, f"emit:{v}:nul", f"a tag with a NUL character in it is handed to libyaml, which takes it to end there", f"{r.e.name} {p.span}")
    ck.count("emitter events", n)
    ck.floor("emitter events", n, 20)
