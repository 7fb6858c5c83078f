"""RFC 9535 section 2.3 and 2.7, written down once for one input node.

Every function returns a list of (location step, child value) pairs.
"""


def norm_name(name):
    """A member name in a normalized path (section 2.7)."""
    text = name.replace("\\", "\\\\")
    text = text.replace("'", "\\'")
    text = text.replace("\b", "\\b")
    text = text.replace("\t", "\\t")
    text = text.replace("\n", "\\n")
    text = text.replace("\f", "\\f")
    text = text.replace("\r", "\\r")
    for code in range(32):
        text = text.replace(chr(code), "\\u%04x" % code)
    return "['" + text + "']"


def norm_step(step):
    if isinstance(step, str):
        return norm_name(step)
    return "[" + str(step) + "]"


def name(value, member):
    if isinstance(value, dict) and member in value:
        return [(member, value[member])]
    return []


def index(value, i):
    if isinstance(value, list):
        if i >= 0:
            if i < len(value):
                return [(i, value[i])]
            return []
        if len(value) + i >= 0:
            return [(len(value) + i, value[len(value) + i])]
        return []
    if isinstance(value, dict):
        # A documented departure.
        member = str(i)
        if member in value:
            return [(member, value[member])]
    return []


def wild(value):
    out = []
    if isinstance(value, dict):
        for k, v in value.items():
            out.append((k, v))
    elif isinstance(value, list):
        for i in range(len(value)):
            out.append((i, value[i]))
    return out


def normalize(i, n):
    if i >= 0:
        return i
    return n + i


def slice_(value, start, end, step):
    """Section 2.3.4.2.2."""
    if not isinstance(value, list):
        return []
    if step is None:
        step = 1
    if step == 0:
        return []
    n = len(value)
    if step > 0:
        if start is None:
            start = 0
        if end is None:
            end = n
        a = normalize(start, n)
        b = normalize(end, n)
        lower = min(max(a, 0), n)
        upper = min(max(b, 0), n)
        out = []
        for i in range(lower, upper, step):
            out.append((i, value[i]))
        return out
    a = n - 1 if start is None else normalize(start, n)
    b = -1 if end is None else normalize(end, n)
    upper = min(max(a, -1), n - 1)
    lower = min(max(b, -1), n - 1)
    out = []
    for i in range(upper, lower, step):
        out.append((i, value[i]))
    return out


def keys(value):
    """The keys selector's values (an extension)."""
    out = []
    if isinstance(value, dict):
        for k in value:
            out.append(k)
    return out


def children(value):
    """(step, child) for every child (the descendant segment visits these)."""
    return wild(value)


def descend(parts, value):
    """(parts, value) for every container below _value_, in pre-order."""
    out = []
    for step, child in wild(value):
        if isinstance(child, (dict, list)):
            out.append((parts + (step,), child))
            for x in descend(parts + (step,), child):
                out.append(x)
    return out
