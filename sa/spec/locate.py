"""What a location is."""

from . import sel


def walk(doc, parts):
    v = doc
    for p in parts:
        v = v[p]
    return v


def normal(parts):
    out = "$"
    for p in parts:
        out = out + sel.norm_step(p)
    return out


def ancestors(doc, parts):
    """The location and value of every proper prefix, the longest first."""
    out = []
    for n in range(len(parts) - 1, -1, -1):
        p = parts[:n]
        out.append((normal(p), p, walk(doc, p)))
    return out


def parents(m):
    out = []
    p = m.parent
    while p is not None:
        out.append((p.path, p.parts, p.obj))
        p = p.parent
    return out
