"""Reader for the JSON traces written by the yamlint driver."""
import json, re, functools


class Call:
    __slots__ = ("uid", "name", "selfty", "targs", "args", "ret", "span", "infn", "kind", "pos")

    def __init__(self, it, pos):
        _, self.uid, self.name, self.selfty, self.targs, self.args, self.ret, self.span, self.infn, self.kind = it
        self.pos = pos

    @property
    def last(self):
        return self.name.rsplit("::", 1)[-1]

    def is_(self, *names):
        """match by last path component(s)"""
        for n in names:
            if self.name == n or self.name.endswith("::" + n):
                return True
        return False


class Path:
    def __init__(self, entry, raw):
        self.e = entry
        self.end = raw["end"]
        self.val = raw["val"]
        self.facts = {int(k): v for k, v in raw["facts"].items()}
        self.span = raw["span"]
        self.infn = raw["infn"]
        self.out = {i: t for i, t in raw["out"]}
        self.heap = {i: t for i, t in raw.get("heap", [])}    # pointer reached from a parameter -> what it points to at the end
        self.node = raw["node"]
        self._items = None

    @property
    def items(self):
        if self._items is None:
            its = []
            n = self.node
            nodes = self.e.nodes
            while n >= 0:
                p, it = nodes[n]
                its.append((n, it))
                n = p
            its.reverse()
            self._items = [it for _, it in its]
            self._ids = [n for n, _ in its]
        return self._items

    def calls(self, kinds=("opaque", "rec", "deep")):
        for i, it in enumerate(self.items):
            if it[0] == "call" and (kinds is None or it[9] in kinds):
                yield Call(it, i)

    def stores(self):
        """writes through pointers returned by opaque calls: (place, value, span)"""
        return [(it[1], it[2], it[3]) for it in self.items if it[0] == "store"]

    def all_calls(self):
        return self.calls(None)

    # ---- facts
    def variants(self, t):
        """set of possible variant names of term t, or None if unknown"""
        d = self.e.discr.get(t)
        if d is None:
            return None
        f = self.facts.get(d)
        if f and "in" in f:
            return set(f["in"])
        return None

    def fact_in(self, t):
        f = self.facts.get(t)
        if f and "in" in f:
            return f["in"]
        return None

    def fact_not(self, t):
        f = self.facts.get(t)
        if f and "not" in f:
            return f["not"]
        return []

    def eq_value(self, t):
        s = self.fact_in(t)
        if s is not None and len(s) == 1:
            return s[0]
        return None


class Entry:
    def __init__(self, raw):
        self.raw = raw
        self.name = raw["name"]
        self.module = raw.get("module", "")
        self.trait = raw.get("trait", "")
        self.error = raw.get("error")
        self.span = raw.get("span", "")
        self.terms = {int(k): v[0] for k, v in raw.get("terms", {}).items()}
        self.tys = {int(k): v[1] for k, v in raw.get("terms", {}).items()}
        self.nodes = raw.get("nodes", [])
        self.params = raw.get("params", [])
        self.ret_ty = raw.get("infn_ret", "")
        self.paths = [Path(self, p) for p in raw.get("paths", [])]
        self.inlined = raw.get("inlined", [])
        self.opaque = raw.get("opaque", [])
        self.cut = raw.get("cut", False)
        self.discr = {}
        self.lenof = {}
        for t, k in self.terms.items():
            if k[0] == "D":
                self.discr[k[1]] = t
            elif k[0] == "a" and k[1] == "len":
                self.lenof[k[2][0]] = t
        self._ret_call = None

    def call_of(self, t):
        """the call that produced an opaque result term, or None"""
        if self._ret_call is None:
            self._ret_call = {}
            for _, it in self.nodes:
                if it[0] == "call" and it[9] != "pure":
                    self._ret_call.setdefault(it[6], Call(it, 0))
        return self._ret_call.get(t)

    def call_by_uid(self, uid):
        if getattr(self, "_uids", None) is None:
            self._uids = {}
            for _, it in self.nodes:
                if it[0] == "call":
                    self._uids.setdefault(it[1], Call(it, 0))
        return self._uids.get(uid)

    # ---- terms
    def k(self, t):
        return self.terms[t]

    def ty(self, t):
        return self.tys.get(t)

    def lit(self, t):
        """string content of a literal, a view of one, or None"""
        k = self.terms[t]
        while k[0] in ("v", "S"):
            t = k[2] if k[0] == "S" else k[1]
            k = self.terms[t]
        return k[1] if k[0] == "s" else None

    def int(self, t):
        k = self.terms[t]
        return k[1] if k[0] == "i" else None

    def strip(self, t):
        """through snapshots: content of pointer"""
        k = self.terms[t]
        while k[0] == "S":
            t = k[2]
            k = self.terms[t]
        return t

    def content(self, t):
        """content denoted by a string-like argument or pointer term"""
        k = self.terms[t]
        while True:
            if k[0] == "S":
                t = k[2]
            elif k[0] == "v":
                t = k[1]
            else:
                return t
            k = self.terms[t]

    def fields(self, t):
        k = self.terms[self.strip(t)]
        if k[0] == "A":
            return dict(zip(k[4] if k[4] else [str(i) for i in range(len(k[3]))], k[3]))
        return {}

    def subterms(self, t, seen=None):
        seen = set() if seen is None else seen
        work = [t]
        while work:
            t = work.pop()
            if t in seen or t not in self.terms:
                continue
            seen.add(t)
            work.extend(self.children(t))
        return seen

    def children(self, t):
        k = self.terms[t]
        o = k[0]
        if o in ("f", "d", "D", "v", "ci", "su"):
            return [k[1]]
        if o in ("ix", "S"):
            return [k[1], k[2]]
        if o == "b":
            return [k[2], k[3]]
        if o in ("u", "c"):
            return [k[2]]
        if o == "A":
            return list(k[3])
        if o == "a":
            return list(k[2])
        if o == "r":
            return [k[2]] if k[1] == "H" else []
        return []

    def show(self, t, d=0):
        if t not in self.terms:
            return f"?{t}"
        k = self.terms[t]
        if d > 12:
            return "…"
        s = lambda x: self.show(x, d + 1)
        o = k[0]
        if o == "i":
            if self.tys.get(t) == "char" and isinstance(k[1], int) and 32 <= k[1] < 127:
                return repr(chr(k[1]))
            return str(k[1])
        if o == "s":
            return json.dumps(k[1])
        if o == "z":
            return f"zst<{k[1]}>"
        if o == "k":
            return k[1]
        if o == "y":
            if k[1] == "param":
                return f"${k[3] or k[2]}"
            if k[1] == "ret":
                return f"ret#{k[2]}"
            if k[1] == "havoc":
                return f"havoc{k[2]}({s(k[3])})"
            if k[1] == "loop":
                return f"loop({s(k[3])})"
            return f"sym:{k[2]}"
        if o == "f":
            return f"{s(k[1])}.{(k[2] + '.') if k[2] else ''}{k[3]}"
        if o == "d":
            return f"*{s(k[1])}"
        if o == "ix":
            return f"{s(k[1])}[{s(k[2])}]"
        if o == "ci":
            return f"{s(k[1])}[{'-' if k[3] else ''}{k[2]}]"
        if o == "su":
            return f"{s(k[1])}[{k[2]}..{'-' if k[4] else ''}{k[3]}]"
        if o == "D":
            return f"tag({s(k[1])})"
        if o == "A":
            n = k[1].rsplit("::", 1)[-1] if not k[1].startswith("closure") else k[1]
            if k[2]:
                n += "::" + k[2]
            return f"{n}({', '.join(s(x) for x in k[3])})"
        if o == "b":
            return f"({s(k[2])} {k[1]} {s(k[3])})"
        if o == "u":
            return f"{k[1]}({s(k[2])})"
        if o == "c":
            return f"({s(k[2])} as {k[1]}:{k[3]})"
        if o == "r":
            return f"&{k[1]}{s(k[2]) if k[1] == 'H' else k[2]}{k[3] if k[3] else ''}"
        if o == "v":
            return f"&{s(k[1])}"
        if o == "a":
            return f"{short(k[1])}({', '.join(s(x) for x in k[2])})"
        if o == "S":
            return f"[{s(k[2])}]"
        return str(k)


def short(n):
    b, g, r = n.partition("<")
    p = b.split("::")
    return "::".join(p[-2:]) + g + r


def show_merged(e, dnf):
    return " | ".join("(" + " & ".join(
        "{" + show_merged(e, m[1]) + "}" if m[0] == "merged" else f"{e.show(m[1])} {'==' if m[3] else '!='} {m[2]}" for m in conj) + ")" for conj in dnf)


def load(path):
    d = json.load(open(path))
    return d, [Entry(e) for e in d["entries"]]


def dump_entry(e, limit=50, pure=False, facts=True, enter=False, match=None):
    print(f"=== {e.name} [{e.span}] paths={len(e.paths)} cut={e.cut} steps={e.raw.get('steps')} err={e.error}")
    print("params:", [(e.show(p), t) for p, t in e.params])
    for i, p in enumerate(e.paths[:limit]):
        if match and not match(p):
            continue
        v = p.val
        if p.end == "return":
            v = e.show(v)
        elif p.end == "panic":
            v = (v[0], [e.show(x) for x in v[1]])
        print(f"--- path {i}: {p.end} {v}   @{p.span} in {p.infn}")
        for it in p.items:
            if it[0] == "call":
                if it[9] == "pure" and not pure:
                    continue
                print(f"    {it[9]:6} {short(it[2])} <{it[3]}|{','.join(it[4])}> ({', '.join(e.show(x) for x in it[5])}) -> {e.show(it[6])}   @{it[7]} {it[8]}")
            elif it[0] == "fact":
                if facts:
                    print(f"      fact {e.show(it[1])} {'==' if it[3] else '!='} {it[2]}")
            elif it[0] == "merged":
                if facts:
                    print("      merged", show_merged(e, it[1]))
            elif it[0] == "enter":
                if enter:
                    print("      enter", it[1])
            elif it[0] == "store":
                print("      store", e.show(it[1]), "=", e.show(it[2]), "@" + it[3])
            elif it[0] == "leave":
                if enter:
                    print("      leave", e.show(it[1]))
            else:
                print("     ", it[0], [e.show(x) if isinstance(x, int) else x for x in it[1:]])
        for k2, t in p.out.items():
            print(f"    out[{k2}] = {e.show(t)}")


if __name__ == "__main__":
    import sys
    d, es = load(sys.argv[1])
    lim = int(sys.argv[3]) if len(sys.argv) > 3 else 50
    for e in es:
        if len(sys.argv) > 2 and sys.argv[2] not in e.module + '|' + e.name:
            continue
        dump_entry(e, lim)
