"""Text written through core::fmt: decodes format templates and collects the pieces a path writes."""
from absval import *


def template(s):
    """pieces of a compiled format template: ('lit', text) / ('arg', index, plain?)"""
    if not s.startswith("\0bytes:"):
        return None
    b = [int(x) for x in s[len("\0bytes:"):].strip("[]").split(",") if x.strip()]
    out, i, nxt = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 128:
            out.append(("lit", bytes(b[i:i + n]).decode("utf8", "replace")))
            i += n
        elif n == 128:
            k = b[i] + 256 * b[i + 1]
            i += 2
            out.append(("lit", bytes(b[i:i + k]).decode("utf8", "replace")))
            i += k
        else:
            fl = n & 63
            i += (4 if fl & 1 else 0) + (2 if fl & 2 else 0) + (2 if fl & 4 else 0)
            if fl & 8:
                nxt = b[i] + 256 * b[i + 1]
                i += 2
            out.append(("arg", nxt, fl & 7 == 0))
            nxt += 1
    return None


def arguments(e, t):
    """pieces of an Arguments term: ('lit', text) / ('arg', term, kind, plain?); None if not recognised"""
    k = e.terms.get(t)
    while k and k[0] in ("S", "v"):
        t = k[2] if k[0] == "S" else k[1]
        k = e.terms.get(t)
    if not k or k[0] != "a":
        return None
    full, last = base(k[1])
    if last in ("from_str", "from_str_nonconst", "new_const") and k[2]:
        s = e.lit(k[2][0])
        return None if s is None else [("lit", s)]
    if last == "new" and len(k[2]) == 2:
        s = e.lit(k[2][0])
        if s is None:
            return None
        ps = template(s)
        args = e.terms.get(e.strip(k[2][1]))
        while args and args[0] in ("v", "S"):
            args = e.terms.get(args[1] if args[0] == "v" else args[2])
        if ps is None or not args or args[0] != "A":
            return None
        out = []
        for p in ps:
            if p[0] == "lit":
                out.append(p)
            else:
                if p[1] >= len(args[3]):
                    return None
                a = e.terms.get(args[3][p[1]])
                if not a or a[0] != "a":
                    return None
                out.append(("arg", a[2][0], base(a[1])[1].replace("new_", ""), p[2]))
        return out
    return None


def written(e, p, sink):
    """pieces path p writes to the formatter `sink` (a parameter term), in order, or None if something else uses it:
    ('lit', text) / ('arg', term, 'display'|'debug'|.., plain?)"""
    out = []
    for c in p.calls():
        if not any(sink in e.subterms(a) for a in c.args):
            continue
        if c.last == "write_fmt" or c.is_("fmt::write"):
            ps = arguments(e, c.args[1])
            if ps is None:
                return None
            out += ps
        elif c.last in ("write_str", "pad", "write_char"):
            s = e.lit(c.args[1])
            x = e.int(c.args[1])
            out.append(("lit", s) if s is not None else ("lit", chr(x)) if x is not None and c.last == "write_char" else ("arg", c.args[1], "display", c.last != "pad"))
        elif c.last == "fmt" and len(c.args) == 2:
            out.append(("arg", c.args[0], "debug" if "Debug" in c.name else "display", True))
        else:
            return None
    return out


def texts(ev, pieces):
    """evaluated pieces: list of str, or None for pieces that are not text known to ev"""
    out = []
    for p in pieces:
        if p[0] == "lit":
            out.append(p[1])
        else:
            v = ev.ev(p[1])
            out.append(v.s if isinstance(v, S) and p[2] == "display" else None)
    return out
