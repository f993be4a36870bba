"""The top-level deserializer's paths with its loader and the nested reads scripted."""
from destate import *
from sim import *


def is_new(e):
    return lambda c: (e.ty(c.ret) or "").startswith("Result<Loader")


def is_next(e):
    return lambda c: (e.ty(c.ret) or "").startswith("Option<Document")


class Doc:
    """abstract documents, with the error field found by its type"""
    def __init__(self, R):
        self.err = None
        for e in R.entries:
            for t, k in e.terms.items():
                if k[0] == "f" and (e.ty(k[1]) or "").startswith("Document") and (e.ty(t) or "").startswith("Option<Arc<"):
                    self.err = k[3]

    def make(self, name, error=None):
        return Adt("Document", None, {self.err: Some(X(error)) if error else NONE, "id": X(name)})


def progress_field(e):
    """terms denoting self.progress, by type"""
    return [t for t, k in e.terms.items() if (e.ty(t) or "").startswith("Progress") and k[0] in ("f", "d") and not any(e.terms[x][0] == "y" and e.terms[x][1] != "param" for x in e.subterms(t))]


def Progress(v, x=None):
    return Adt("Progress", v, {"0": x} if x is not None else {})


def error_kind(v):
    """variant of an abstract Error value, the name of an opaque one, or None"""
    while isinstance(v, Adt) and not v.variant and len(v.fields) == 1:
        v = next(iter(v.fields.values()))
    if isinstance(v, Adt) and v.name == "ErrorImpl":
        if v.variant == "Shared":
            x = v.fields.get("0")
            return x.name if isinstance(x, X) else None
        return v.variant
    return v.name if isinstance(v, X) else None
