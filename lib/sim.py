"""Drives the transfer function of one loop (its extracted paths) through abstract histories: collections are abstract
lists and maps, inputs come from a feed, everything else is evaluated by Ev.  A step with no single feasible path ends as unknown."""
from absval import *


class L:
    """a list whose elements are abstract values"""
    def __init__(self, xs=()):
        self.xs = tuple(xs)

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.xs)) + "]"

    def __eq__(self, o):
        return isinstance(o, L) and self.xs == o.xs

    def __hash__(self):
        return hash(len(self.xs))

    fields = {}


class M:
    """an ordered map from known keys to abstract values"""
    def __init__(self, kv=()):
        self.kv = tuple(kv)

    def get(self, k):
        for a, v in self.kv:
            if a == k:
                return v
        return None

    def has(self, k):
        return any(a == k for a, _ in self.kv)

    def put(self, k, v):
        if self.has(k):
            return M([(a, v if a == k else w) for a, w in self.kv])
        return M(self.kv + ((k, v),))

    def drop(self, k):
        return M([(a, v) for a, v in self.kv if a != k])

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.kv) + "}"

    def __eq__(self, o):
        return isinstance(o, M) and self.kv == o.kv

    def __hash__(self):
        return hash(len(self.kv))

    fields = {}


def known(k):
    """keys whose identity is certain"""
    return isinstance(k, (X, S)) or isinstance(k, I) and k.const is not None


def _new(ty):
    ty = ty or ""
    return L() if "Vec<" in ty or "VecDeque<" in ty or ty.startswith("[") else M() if "Map<" in ty else None


def _app_new(ev, av, at, t):
    return _new(ev.e.ty(t))


def _call_new(ev, av, args, c):
    return _new(ev.e.ty(c.ret))


def _len(ev, av, at, t):
    if av and isinstance(av[0], L):
        return I(len(av[0].xs), len(av[0].xs))
    if av and isinstance(av[0], M):
        return I(len(av[0].kv), len(av[0].kv))


def _empty(ev, av, at, t):
    if av and isinstance(av[0], L):
        return B(not av[0].xs)
    if av and isinstance(av[0], M):
        return B(not av[0].kv)


def _has(ev, av, at, t):
    if len(av) > 1 and isinstance(av[0], M) and known(av[1]):
        return B(av[0].has(av[1]))


def _get(ev, av, at, t):
    if len(av) > 1 and isinstance(av[0], M) and known(av[1]):
        return Some(av[0].get(av[1])) if av[0].has(av[1]) else NONE
    if len(av) > 1 and isinstance(av[0], L) and isinstance(av[1], I) and av[1].const is not None:
        i = av[1].const
        return Some(av[0].xs[i]) if 0 <= i < len(av[0].xs) else NONE


def _index(ev, av, at, t):
    r = _get(ev, av, at, t)
    return r.fields["0"] if isinstance(r, Adt) and r.variant == "Some" else None


def _last(ev, av, at, t):
    if av and isinstance(av[0], L):
        return Some(av[0].xs[-1]) if av[0].xs else NONE


def _first(ev, av, at, t):
    if av and isinstance(av[0], L):
        return Some(av[0].xs[0]) if av[0].xs else NONE


def _same(ev, av, at, t):
    return av[0] if av else None


def as_call(f):
    return lambda ev, av, args, c: f(ev, av, args, c.ret)


def _call_pop(ev, av, args, c):
    return _last(ev, av, args, c.ret)


def _call_insert(ev, av, args, c):
    if len(av) == 3 and isinstance(av[0], M) and known(av[1]):
        return Some(av[0].get(av[1])) if av[0].has(av[1]) else NONE


def _call_remove(ev, av, args, c):
    r = _get(ev, av, args, c.ret)
    return r


def h_insert(ev, old, c, t):
    a = [ev.ev(x) for x in c.args]
    if len(a) == 3 and isinstance(old, M) and known(a[1]):
        return old.put(a[1], a[2])


def h_push(ev, old, c, t):
    if isinstance(old, L) and len(c.args) == 2:
        return L(old.xs + (ev.ev(c.args[1]),))


def h_pop(ev, old, c, t):
    if isinstance(old, L):
        return L(old.xs[:-1])


def h_clear(ev, old, c, t):
    return type(old)() if isinstance(old, (L, M)) else None


def h_remove(ev, old, c, t):
    k = ev.ev(c.args[1]) if len(c.args) > 1 else None
    if isinstance(old, M) and known(k):
        return old.drop(k)
    if isinstance(old, L) and isinstance(k, I) and k.const is not None and k.const < len(old.xs):
        return L(old.xs[:k.const] + old.xs[k.const + 1:])


def h_entry(ev, old, c, t):
    """map.entry(k) together with what is done to the entry"""
    k = ev.ev(c.args[1])
    if not isinstance(old, M) or not known(k):
        return None
    e = ev.e
    for _, it in e.nodes:
        if it[0] == "call" and it[5] and it[5][0] == c.ret:
            last = it[2].rsplit("::", 1)[-1]
            if last == "or_insert" and len(it[5]) == 2:
                return old if old.has(k) else old.put(k, ev.ev(it[5][1]))
    return None


FNS = {"new": _app_new, "with_capacity": _app_new, "default": _app_new, "len": _len, "is_empty": _empty, "contains_key": _has, "get": _get, "index": _index, "last": _last, "first": _first,
       "copied": _same, "cloned": _same, "as_ref": _same, "clone": _same, "as_deref": _same, "as_mut": _same, "borrow": _same, "deref": _same,
       "call:new": _call_new, "call:with_capacity": _call_new, "call:default": _call_new, "call:get": as_call(_get), "call:contains_key": as_call(_has), "call:len": as_call(_len), "call:is_empty": as_call(_empty),
       "call:index": as_call(_index), "call:remove": _call_remove, "call:get_mut": as_call(_get), "call:contains": as_call(_has), "call:pop": _call_pop, "call:last": as_call(_last), "call:insert": _call_insert, "call:clone": as_call(_same),
       "havoc:insert": h_insert, "havoc:push": h_push, "havoc:pop": h_pop, "havoc:clear": h_clear, "havoc:remove": h_remove, "havoc:entry": h_entry}


class Sim:
    """one function with at most one loop that consumes a feed of inputs"""
    def __init__(self, e, source, fns=None):
        """source(call) tells which calls read the next input"""
        self.e, self.source = e, source
        self.fns = dict(FNS, **(fns or {}))
        self.srcs = {}
        self.loopsyms = {}
        heads = set()
        for p in e.paths:
            self.srcs[id(p)] = tuple(c.ret for c in p.calls() if source(c))
            if p.end == "back":
                heads.add(p.val[0])
                for s, n in p.val[1]:
                    self.loopsyms[s] = e.terms[s][3]
        self.heads = heads
        for f in {c.last for p in e.paths for c in p.calls() if source(c)}:
            self.fns["havoc:" + f] = lambda ev, old, c, t: old

    def init(self, env):
        ev = Ev(self.e, env, fns=self.fns)
        return {s: ev.ev(i) for s, i in self.loopsyms.items()}

    def step(self, env, state, inputs):
        """-> (path, Ev, number of inputs consumed) or None.  inputs: list of abstract results still to come"""
        cands = []
        evs = {}
        for p in self.e.paths:
            s = self.srcs[id(p)]
            if len(s) > len(inputs):
                return None
            ev = evs.get(s)
            if ev is None:
                en = dict(env)
                for r, v in zip(s, inputs):
                    en[r] = v
                ev = evs[s] = Ev(self.e, en, fns=self.fns)
                ev.at(state)
            f = ev.feasible(p)
            if f != "no":
                cands.append((f, p, ev, len(s)))
        yes = [c for c in cands if c[0] == "yes"]
        if len(yes) == 1 and all(c[1].end == "panic" or c is yes[0] for c in cands):
            return yes[0][1:]
        cands = [c for c in cands if c[1].end != "panic"]
        # paths that differ only in what cannot be told apart (allocation details) and agree on the result
        if cands and len({(c[1].end, repr(self.result(c))) for c in cands}) == 1:
            return cands[0][1:]
        return None

    def result(self, c):
        f, p, ev, n = c
        if p.end == "return":
            return ev.ev(p.val), [ev.ev(t) for t in p.out.values()]
        if p.end == "back":
            return [(s, ev.ev(t)) for s, t in p.val[1]]
        return id(p)

    def run(self, env, inputs, limit=40):
        """-> (path, Ev, inputs consumed) or None when some step is not decided"""
        state = self.init(env)
        used = 0
        for _ in range(limit):
            r = self.step(env, state, inputs[used:])
            if r is None:
                return None
            p, ev, n = r
            used += n
            if p.end != "back":
                return p, ev, used
            new = dict(state)
            for s, t in p.val[1]:
                new[s] = ev.ev(t)
            state = new
        return None


class Script:
    """paths of a function evaluated with the results of selected calls scripted: the k-th call on the path matching a predicate returns the k-th value of its list"""
    def __init__(self, e, rules, fns=None):
        self.e, self.rules, self.fns = e, rules, dict(FNS, **(fns or {}))
        self.plan = []
        for p in e.paths:
            m = []
            n = [0] * len(rules)
            for c in p.calls():
                for i, r in enumerate(rules):
                    if r(c):
                        m.append((c.ret, i, n[i]))
                        n[i] += 1
            self.plan.append(tuple(m))

    def outcomes(self, env, values, ends=("return", "panic", "back", "diverge")):
        """values: one list per rule -> [(feasibility, path, Ev)]"""
        out, evs = [], {}
        for p, plan in zip(self.e.paths, self.plan):
            if p.end not in ends:
                continue
            ev = evs.get(plan)
            if ev is None:
                en = dict(env)
                for ret, i, k in plan:
                    if k < len(values[i]) and values[i][k] is not None:
                        en[ret] = values[i][k]
                ev = evs[plan] = Ev(self.e, en, fns=self.fns)
            f = ev.feasible(p)
            if f == "maybe" and ev.free(p):
                f = "free"
            if f != "no":
                out.append((f, p, ev))
        return out

    def ran(self, p, i):
        """how many calls matching rule i the path makes"""
        return sum(1 for _, j, _ in self.plan[self.e.paths.index(p)] if j == i)


def looped(e):
    """terms whose value can change from one round of a loop to the next"""
    if not hasattr(e, "_looped"):
        users, work = {}, []
        for t, k in e.terms.items():
            kids = list(e.children(t))
            if k[0] == "y" and k[1] == "loop":
                work.append(t)
            elif k[0] == "y" and k[1] == "havoc":
                kids.append(k[3])
                c = e.call_by_uid(k[2])
                kids += list(c.args) if c else []
            elif k[0] == "y" and k[1] == "ret":
                c = e.call_of(t)
                kids += list(c.args) if c else []
            for x in kids:
                users.setdefault(x, []).append(t)
        out = set()
        while work:
            t = work.pop()
            if t not in out:
                out.add(t)
                work.extend(users.get(t, ()))
        e._looped = out
    return e._looped


def drive(ev, paths=None, ends=("return", "panic"), limit=300):
    """outcomes of a function with loops on one abstract input: each loop is gone round as often as the input says.
    -> [(feasibility, path, state of the loops)], or None when it is not certain which way a loop goes"""
    e = ev.e
    paths = e.paths if paths is None else paths
    heads = getattr(paths, "heads", None)
    if heads is None:
        heads = {}
        for p in paths:
            if p.end == "back":
                heads.setdefault(p.val[0], set()).update(s for s, _ in p.val[1])
        if isinstance(paths, Paths):
            paths.heads = heads
    ev.lazy = True
    ev.stuck = None
    state = {}
    dep = looped(e)
    for _ in range(limit):
        kept = {t: v for t, v in ev.memo.items() if t not in dep and t != "dead"}
        ev.at(state)
        ev.memo = kept
        sure, maybe = None, []
        for p in paths.live(ev) if isinstance(paths, Paths) else paths:
            if p.end != "back" and p.end not in ends and p.end != "panic":
                continue
            f = ev.feasible(p)
            if f == "yes":
                sure = p
                break
            if f == "maybe":
                if ev.free(p):
                    f = "free"
                maybe.append((f, p))
        if sure is None:
            if any(p.end == "back" for f, p in maybe):
                return None
            return [(f, p, dict(state)) for f, p in maybe if p.end in ends]
        if sure.end != "back":
            return [("yes", sure, dict(state))] if sure.end in ends else []
        head = sure.val[0]
        order = [it[1] for it in sure.items if it[0] == "loop"]
        new = {s: v for s, v in state.items()}
        for h in order[order.index(head) + 1:] if head in order else ():
            for s in heads.get(h, ()):
                new.pop(s, None)
        for s, t in sure.val[1]:
            new[s] = ev.ev(t)
        if new == state:
            ev.stuck = sure
            return None
        state = new
    return None
