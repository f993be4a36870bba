"""Error values in traces."""


def errkinds(e, t):
    """variants of ErrorImpl constructed inside term t"""
    return {k[2] for k in (e.terms[x] for x in e.subterms(t)) if k[0] == "A" and k[1].rsplit("::", 1)[-1] == "ErrorImpl" and k[2]}
