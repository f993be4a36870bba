"""What Display and Debug implementations write for an abstract value: their paths are followed through nested values and
the pieces written are put together."""
from absval import *
from sim import FNS
from scalar import STR_FNS
import fmtargs
import re

OKU = Adt("Result", "Ok", {"0": Adt("tuple", None, {})})


class Render:
    def __init__(self, R):
        self.R = R
        self.depth = 0

    def entries(self, tyname, trait):
        return [e for e in self.R.entries if re.search(rf"<&?{re.escape(tyname)}(<.*>)? as {trait}>::fmt$", e.name)]

    def value(self, v, how="display", module=None):
        """texts a formatted value may produce; None where unknown"""
        if isinstance(v, S):
            return {v.s} if how == "display" else {'"' + v.s + '"'}
        if isinstance(v, I) and v.const is not None:
            return {str(v.const)}
        if isinstance(v, X):
            return {f"«{v.name}»"}
        if isinstance(v, Adt):
            nm, _, mod = v.name.partition("@")
            es = self.entries(nm, "Display" if how == "display" else "Debug")
            if mod:
                es = [e for e in es if e.module == mod]
            if len(es) == 1 and self.depth < 12:
                self.depth += 1
                try:
                    r = {t for f, t in self.run(es[0], [v]) if f != "no"}
                finally:
                    self.depth -= 1
                return r or None
            if not es and not v.variant and len(v.fields) == 1:
                return self.value(next(iter(v.fields.values())), how)
        return None

    def run(self, e, args):
        """[(feasibility, text or None)] for calling entry e, a fmt method or one that takes a formatter last"""
        if e.cut or e.error:
            return [("maybe", None)]
        fns = dict(FNS)
        fns.update(STR_FNS)
        for n in ("write_fmt", "write_str", "write_char", "pad", "fmt", "finish", "display", "debug"):
            fns["call:" + n] = lambda ev, av, a, c: OKU
        fns["to_string"] = lambda ev, av, at, t: self._string(av)
        fns["call:to_string"] = lambda ev, av, a, c: self._string(av)
        env = {e.params[i][0]: a for i, a in enumerate(args)}
        sink = e.params[-1][0]
        ev = Ev(e, env, fns=fns)
        out = []
        for p in e.paths:
            f = ev.feasible(p)
            if f == "no" or p.end != "return":
                if f == "yes":
                    out.append((f, None))
                continue
            out.append((f, self.path(e, p, ev, sink)))
        return out

    def _string(self, av):
        if av and av[0] is not None:
            r = self.value(av[0])
            if r and len(r) == 1 and None not in r:
                return S(next(iter(r)))

    def path(self, e, p, ev, sink):
        texts = [""]

        def add(opts):
            nonlocal texts
            if texts is None or not opts or None in opts:
                texts = None
                return
            texts = [a + b for a in texts for b in opts][:8]
        struct = None
        for c in p.calls():
            if c.last == "debug_struct":
                add({e.lit(c.args[1]) or "?"})
                struct = 0
                continue
            if c.last == "field" and struct is not None:
                r = self.value(ev.ev(c.args[2]), "debug")
                add({f"{' {' if not struct else ','} {e.lit(c.args[1])}: " + x for x in r if x is not None} if r else None)
                struct += 1
                continue
            if c.last == "finish" and struct is not None:
                add({" }" if struct else ""})
                continue
            if not any(sink in e.subterms(a) for a in c.args):
                continue
            if c.last == "write_fmt" or c.is_("fmt::write"):
                ps = fmtargs.arguments(e, c.args[1])
                if ps is None:
                    return None
                for q in ps:
                    if q[0] == "lit":
                        add({q[1]})
                    else:
                        add(self.value(ev.ev(q[1]), q[2]))
            elif c.last in ("write_str", "pad", "write_char"):
                v = ev.ev(c.args[1])
                add({v.s} if isinstance(v, S) else {chr(v.const)} if isinstance(v, I) and v.const is not None else None)
            elif c.last == "fmt" and len(c.args) == 2:
                add(self.value(ev.ev(c.args[0]), "debug" if "Debug" in c.name else "display"))
            elif c.kind == "rec":
                # a recursive call of a method that writes to the same formatter
                es = [x for x in self.R.entries if x.name == c.name and len(x.params) == len(c.args)]
                if len(es) != 1 or self.depth > 12:
                    return None
                self.depth += 1
                rs = {t for f, t in self.run(es[0], [ev.ev(a) for a in c.args[:-1]] + [X("f")])}
                self.depth -= 1
                add(rs)
            else:
                return None
            if texts is None:
                return None
        return texts[0] if texts is not None and len(set(texts)) == 1 else None
