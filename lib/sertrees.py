"""Abstract values of every serde shape, nested to a bounded depth."""
U = ("unit",)
LEAVES = [U, ("str", "a"), ("text", "!t"), ("text", "x"), ("uv", "w")]
EMPTY = [("seq", "seq", []), ("map", 1, "entry", []), ("map", True, "entry", []), ("map", False, "entry", []), ("tv", "v", []), ("sv", "v", []), ("struct", [])]


def wrap(c):
    yield ("some", c)
    yield ("nts", c)
    yield ("ntv", "v", c)
    yield ("ntv", "!v", c)
    for k in ("seq", "tuple", "ts"):
        yield ("seq", k, [c])
    yield ("seq", "seq", [c], False)
    yield ("tv", "v", [c])
    yield ("struct", [("f", c)])
    yield ("sv", "v", [("f", c)])
    for hint in (True, False):
        for mode in ("entry", "key"):
            yield ("map", hint, mode, [(c, U)])
            yield ("map", hint, mode, [(U, c)])
    yield ("map", True, "entry", [(("text", "!t"), c)])
    yield ("map", True, "entry", [(("some", ("text", "!t")), c)])


def narrow(c):
    """the wrappers whose treatment differs"""
    yield ("ntv", "v", c)
    yield ("seq", "seq", [c])
    yield ("tv", "v", [c])
    yield ("sv", "v", [("f", c)])
    yield ("map", True, "entry", [(c, U)])
    yield ("map", True, "entry", [(U, c)])
    yield ("map", True, "key", [(c, U)])
    yield ("map", True, "entry", [(("text", "!t"), c)])


def pair(a, b):
    yield ("seq", "seq", [a, b])
    yield ("tv", "v", [a, b])
    yield ("map", True, "entry", [(a, b)])
    yield ("map", True, "key", [(a, b)])
    yield ("map", True, "entry", [(U, a), (b, U)])
    yield ("map", True, "entry", [(a, U), (b, U)])
    yield ("struct", [("f", a), ("g", b)])
    yield ("sv", "v", [("f", a), ("g", b)])


def trees(deep):
    l0 = LEAVES + EMPTY
    l1 = [w for c in l0 for w in wrap(c)]
    yield from l0
    yield from l1
    for c in l1:
        yield from wrap(c)
    small = LEAVES + [w for c in (U, ("text", "!t")) for w in narrow(c)] + EMPTY
    for a in small:
        for b in small:
            yield from pair(a, b)
    n2 = [w for c in [w for c in (U, ("text", "!t")) for w in narrow(c)] for w in narrow(c)]
    for c in n2:
        yield from narrow(c)
    if deep:
        for c in [w for c in l1 for w in narrow(c)]:
            yield from narrow(c)
        for c in n2:
            for w in narrow(c):
                yield from narrow(w)


NAMES = ["", "!", "!!", "!v", "!!v", "v!", "a!b", "!a!b", "a!b!c", " v", "v w", " !v", "\u00e9", "!\u00e9", "0", "-", "null", "<v>", "!<v>", "a:b", "tag:yaml.org,2002:str", "!tag:yaml.org,2002:str",
         "a" * 3, "a" * 31, "a" * 32, "a" * 33, "a" * 127, "a" * 128, "a" * 129, "!" + "a" * 255, "a" * 256]


def named(n):
    """a name or text in every place that takes one"""
    for c in (U, ("str", n), ("text", n), ("seq", "seq", []), ("struct", [("f", U)])):
        yield ("ntv", n, c)
    yield ("seq", "seq", [("ntv", n, U), ("ntv", n, U)])
    yield ("map", True, "entry", [(("ntv", n, U), U)])
    yield ("map", True, "entry", [(U, ("ntv", n, U))])
    yield ("ntv", "v", ("ntv", n, U))
    yield ("ntv", n, ("ntv", "v", U))
    yield ("some", ("ntv", n, U))
    for xs in ([], [U], [U, U]):
        yield ("tv", n, xs)
        yield ("sv", n, [("f" + str(i), x) for i, x in enumerate(xs)])
    yield ("seq", "seq", [("tv", n, [U]), ("sv", n, [("f", U)])])
    yield ("ntv", "v", ("tv", n, [U]))
    yield ("ntv", "v", ("sv", n, [("f", U)]))
    yield ("sv", "v", [(n, U)])
    yield ("struct", [(n, U)])
    yield ("ntv", "v", ("struct", [(n, U)]))
    for leaf in (("str", n), ("uv", n), ("text", n)):
        yield leaf
        yield ("seq", "seq", [leaf])
        yield ("ntv", "v", leaf)
        yield ("ntv", "v", ("seq", "seq", [leaf]))
        for hint in (True, False):
            for mode in ("entry", "key"):
                if leaf[0] == "text" and hint and mode == "key" and n.startswith("!") and len(n) > 1:
                    continue    # a tagged value is always written as an entry
                yield ("map", hint, mode, [(leaf, U)])
                yield ("ntv", "v", ("map", hint, mode, [(leaf, U)]))
