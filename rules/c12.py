from serproto import *
import emitrule

WHAT = ("The serializer's methods are driven, on their extracted paths, through abstract histories of serde calls with enum variants and tagged values in every position, and the tag on each event handed to the emitter is compared with the one the value calls for; "
        "a value that would need two tags must be refused as a nested enum.")
ASSUMES = ["callers follow serde's protocol, give exact length hints and stop after the first error", "what counts as a tag is decided by check_for_tag, whose own behaviour is another property's"]


def judge(ts, want, got):
    if isinstance(got, tuple):
        return None
    if not isinstance(want, list):
        if isinstance(got, list):
            return "nested", f"two tags meet, but it emits {render(got)}"
        return None if got == want else ("nested", f"two tags meet, but it fails with {got}")
    if isinstance(got, str) or got is None:
        return ("spurious", "is refused as a nested enum") if got == "SerializeNestedEnum" else None
    if [x[0] for x in got] == [x[0] for x in want]:
        a, b = [x[1] if len(x) > 1 else None for x in got], [x[1] if len(x) > 1 else None for x in want]
    else:
        # nesting is another property's: only the tags are compared
        a, b = [x[1] for x in got if len(x) > 1 and x[1]], [x[1] for x in want if len(x) > 1 and x[1]]
    if a != b and "?" not in a:
        return "tag", f"emits {render(got)} instead of {render(want)}"


def check(ck):
    compare(ck, judge)
    emitrule.obligations(ck, "tag")
