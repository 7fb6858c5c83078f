"""RFC 6902 over lists of unescaped reference tokens."""

import copy

from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPatchTestFailure

from spec.pointer import is_index
from spec.pointer import proper_prefix
from spec.pointer import resolve
from spec.pointer import text
from spec.ref import json_equal


class Failed(Exception):
    pass


class Unspecified(Exception):
    pass


class TestFailed(Exception):
    pass


class Missing(Exception):
    """Nothing to test: a missing target, and a failed test."""


def get(doc, tokens):
    r = resolve(doc, tokens)
    if r[0] != "value":
        raise Failed()
    return r[1]


def put(parent, token, value):
    if isinstance(parent, dict):
        parent[token] = value
    elif isinstance(parent, list):
        if token == "-":
            parent.append(value)
        elif is_index(token) and int(token) <= len(parent):
            parent.insert(int(token), value)
        else:
            raise Failed()
    else:
        raise Failed()


def take(parent, token):
    """Remove and return a member or element that is known to exist."""
    if isinstance(parent, dict):
        v = parent[token]
        del parent[token]
        return v
    v = parent[int(token)]
    del parent[int(token)]
    return v


def add(doc, path, value):
    if not path:
        return copy.deepcopy(value)
    put(get(doc, path[:-1]), path[-1], copy.deepcopy(value))
    return doc


def has(parent, token):
    if isinstance(parent, dict):
        return token in parent
    if isinstance(parent, list):
        return is_index(token) and int(token) < len(parent)
    return False


def remove(doc, path):
    if not path:
        raise Unspecified()
    get(doc, path)
    take(get(doc, path[:-1]), path[-1])
    return doc


def replace(doc, path, value):
    get(doc, path)
    if not path:
        return copy.deepcopy(value)
    parent = get(doc, path[:-1])
    if isinstance(parent, dict):
        parent[path[-1]] = copy.deepcopy(value)
    else:
        parent[int(path[-1])] = copy.deepcopy(value)
    return doc


def move(doc, source, path):
    if proper_prefix(source, path):
        raise Failed()
    value = get(doc, source)
    if source:
        take(get(doc, source[:-1]), source[-1])
    if not path:
        return value
    put(get(doc, path[:-1]), path[-1], value)
    return doc


def copied(doc, source, path):
    value = get(doc, source)
    if not path:
        return copy.deepcopy(value)
    put(get(doc, path[:-1]), path[-1], copy.deepcopy(value))
    return doc


def test(doc, path, value):
    r = resolve(doc, path)
    if r[0] != "value":
        raise Missing()
    if not json_equal(r[1], value):
        raise TestFailed()
    return doc


def addne(doc, path, value):
    """Like `add`, but an existing object member stays as it is."""
    if path:
        parent = get(doc, path[:-1])
        if isinstance(parent, dict) and path[-1] in parent:
            return doc
    return add(doc, path, value)


def addap(doc, path, value):
    """Like `add`, but appends where an array index can't be resolved."""
    if path:
        parent = get(doc, path[:-1])
        if isinstance(parent, list) and path[-1] != "-" and not is_index(path[-1]):
            raise Unspecified()
        if isinstance(parent, list) and not has(parent, path[-1]):
            parent.append(copy.deepcopy(value))
            return doc
    return add(doc, path, value)


def step(doc, op):
    """One operation: a name, a token list, and a value or another token list."""
    name = op[0]
    if name == "add":
        return add(doc, op[1], op[2])
    if name == "remove":
        return remove(doc, op[1])
    if name == "replace":
        return replace(doc, op[1], op[2])
    if name == "move":
        return move(doc, op[2], op[1])
    if name == "copy":
        return copied(doc, op[2], op[1])
    if name == "test":
        return test(doc, op[1], op[2])
    if name == "addne":
        return addne(doc, op[1], op[2])
    return addap(doc, op[1], op[2])


def apply(doc, ops):
    try:
        for op in ops:
            doc = step(doc, op)
    except TestFailed:
        return ("test failed",)
    except Missing:
        return ("failed or test failed",)
    except Failed:
        return ("failed",)
    except Unspecified:
        return ("unspecified",)
    return ("document", doc)


def applied(patch, doc):
    try:
        return ("document", patch.apply(doc))
    except JSONPatchTestFailure:
        return ("test failed",)
    except JSONPatchError:
        return ("failed",)


def applied_function(f, document, doc, unicode_escape):
    try:
        return ("document", f(document, doc, unicode_escape=unicode_escape))
    except JSONPatchTestFailure:
        return ("test failed",)
    except JSONPatchError:
        return ("failed",)


def build(patch, ops):
    """A chain of builder calls."""
    for op in ops:
        name = op[0]
        path = text(op[1])
        if name == "add":
            patch = patch.add(path, op[2])
        elif name == "remove":
            patch = patch.remove(path)
        elif name == "replace":
            patch = patch.replace(path, op[2])
        elif name == "move":
            patch = patch.move(text(op[2]), path)
        elif name == "copy":
            patch = patch.copy(text(op[2]), path)
        elif name == "test":
            patch = patch.test(path, op[2])
        elif name == "addne":
            patch = patch.addne(path, op[2])
        else:
            patch = patch.addap(path, op[2])
    return patch


def document(ops):
    """The patch as a list of dictionaries."""
    out = []
    for op in ops:
        d = {"op": op[0], "path": text(op[1])}
        if op[0] in ("move", "copy"):
            d["from"] = text(op[2])
        elif op[0] != "remove":
            d["value"] = op[2]
        out.append(d)
    return out


# A patch as a value.


def padded(r):
    return r if len(r) == 2 else (r[0], None)


def reports(make, ops, docs):
    """Apply a patch to several documents, then print it."""
    d = document(ops)
    patch = make(d)
    before = patch.asdicts()
    results = [padded(applied(patch, doc)) for doc in docs]
    return ("reports", results, [before, patch.asdicts(), d])


def built_reports(patch, ops, docs):
    return reports_of(build(patch, ops), ops, docs)


def reports_of(patch, ops, docs):
    before = patch.asdicts()
    results = [padded(applied(patch, doc)) for doc in docs]
    return ("reports", results, [before, patch.asdicts(), document(ops)])


def expected_reports(ops, docs):
    results = [padded(apply(doc, ops)) for doc in docs]
    return ("reports", results, [document(ops), document(ops), document(ops)])


# Editing at a native location (keys and indices).


def _parent(doc, parts):
    v = doc
    for p in parts[:-1]:
        v = v[p]
    return v


def replaced_at(doc, parts, value):
    if not parts:
        return ("document", value)
    _parent(doc, parts)[parts[-1]] = value
    return ("document", doc)


def removed_at(doc, parts):
    if not parts:
        return ("unspecified",)
    del _parent(doc, parts)[parts[-1]]
    return ("document", doc)
