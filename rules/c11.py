from serproto import *
import emitrule

WHAT = ("The serializer's methods are driven, on their extracted paths, through abstract histories of serde calls (every value shape nested to depth three, pairs of siblings, several top-level values, every kind of value as a map key, "
        "exact or unknown length hints, entries written at once or key by key), and the events handed to the emitter are compared with the nesting the protocol calls for.")
ASSUMES = ["callers follow serde's protocol, give exact length hints and stop after the first error", "the emitter accepts the events"]


def judge(ts, want, got):
    if isinstance(got, tuple):
        return "panic", got[1]
    if not isinstance(want, list):
        return None
    if isinstance(got, str) or got is None:
        return None if got == "SerializeNestedEnum" else ("error", f"fails with {got}")
    a, b = [x[0] for x in got], [x[0] for x in want]
    if a != b:
        return "nesting", f"emits {' '.join(a)} instead of {' '.join(b)}"
    for x, y in zip(got, want):
        if x[0] == "scalar" and isinstance(x[2], str) and isinstance(y[2], str) and x[2] != y[2]:
            return "content", f"emits {render(got)} instead of {render(want)}"


def check(ck):
    compare(ck, judge)
    emitrule.obligations(ck, "kind")
