"""RFC 6901, over lists of unescaped reference tokens."""

import re

from jsonpath import JSONPointer
from jsonpath.exceptions import JSONPointerResolutionError

INDEX = re.compile("0|[1-9][0-9]*")


def encode(token):
    return token.replace("~", "~0").replace("/", "~1")


def text(tokens):
    out = ""
    for t in tokens:
        out = out + "/" + encode(t)
    return out


def is_index(token):
    return INDEX.fullmatch(token) is not None


def resolve(doc, tokens):
    v = doc
    for t in tokens:
        if isinstance(v, dict):
            if t not in v:
                return ("nothing",)
            v = v[t]
        elif isinstance(v, list):
            if not is_index(t):
                return ("nothing",)
            i = int(t)
            if i >= len(v):
                return ("nothing",)
            v = v[i]
        else:
            return ("nothing",)
    return ("value", v)


def outcome(pointer, doc):
    try:
        return ("value", pointer.resolve(doc))
    except JSONPointerResolutionError:
        return ("nothing",)


def parsed(text_, unicode_escape):
    return JSONPointer(text_, unicode_escape=unicode_escape)


def defaulted(pointer, doc, default):
    v = pointer.resolve(doc, default=default)
    return v


def expected_default(doc, tokens, default):
    r = resolve(doc, tokens)
    if r[0] == "value":
        return r[1]
    return default


def exists(doc, tokens):
    return resolve(doc, tokens)[0] == "value"


def resolve_nodes(doc, tokens):
    """What is left open where RFC 6901 finds nothing."""
    r = resolve(doc, tokens)
    if r[0] == "value":
        return r
    return ("unspecified",)


def outcome_of_nodes(pointer, doc, tokens):
    if resolve(doc, tokens)[0] != "value":
        return ("unspecified",)
    return outcome(pointer, doc)


def module_outcome(f, pointer, doc, unicode_escape):
    try:
        return ("value", f(pointer, doc, unicode_escape=unicode_escape))
    except JSONPointerResolutionError:
        return ("nothing",)


def exists_agrees(pointer, doc):
    return pointer.exists(doc) == (outcome(pointer, doc)[0] == "value")


def indices_text(indices):
    out = ""
    for i in indices:
        out = out + "/" + str(i)
    return out


def proper_prefix(a, b):
    """Is _a_ a proper prefix of _b_?"""
    if len(a) >= len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            return False
    return True


def same_tokens(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            return False
    return True
