"""RFC 9535 evaluation (and the documented extensions) over syntax trees.

A node is a tuple (value, parts, path, parent).
"""

import re

from . import sel


class Nothing:
    pass


NOTHING = Nothing()


def is_number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def json_equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if is_number(a) or is_number(b):
        return is_number(a) and is_number(b) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list) or isinstance(b, list):
        if not isinstance(a, list) or not isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        return all(json_equal(a[i], b[i]) for i in range(len(a)))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return all(k in b and json_equal(v, b[k]) for k, v in a.items())
    return False


def equal(a, b):
    if a is NOTHING or b is NOTHING:
        return a is NOTHING and b is NOTHING
    return json_equal(a, b)


def less(a, b):
    if is_number(a) and is_number(b):
        return a < b
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    return False


def contains(container, member):
    if isinstance(container, str):
        return isinstance(member, str) and member in container
    if isinstance(container, dict):
        return isinstance(member, str) and member in container
    if isinstance(container, list):
        return any(equal(member, x) for x in container)
    return False


def compare(op, a, b):
    if op == "==":
        return equal(a, b)
    if op == "!=":
        return not equal(a, b)
    if op == "<":
        return less(a, b)
    if op == ">":
        return less(b, a)
    if op == "<=":
        return less(a, b) or equal(a, b)
    if op == ">=":
        return less(b, a) or equal(a, b)
    if op == "in":
        return contains(b, a)
    if op == "contains":
        return contains(a, b)
    raise AssertionError(op)


def child(node, step, value):
    return (value, node[1] + (step,), node[2] + sel.norm_step(step), node)


def descendants(node):
    """The node and everything below it, in pre-order."""
    yield node
    for step, value in sel.wild(node[0]):
        if isinstance(value, (dict, list)):
            yield from descendants(child(node, step, value))


def select(node, selector, root, ctx):
    kind = selector[0]
    value = node[0]
    if kind == "name":
        for step, v in sel.name(value, selector[1]):
            yield child(node, step, v)
    elif kind == "index":
        for step, v in sel.index(value, selector[1]):
            yield child(node, step, v)
    elif kind == "slice":
        for step, v in sel.slice_(value, selector[1], selector[2], selector[3]):
            yield child(node, step, v)
    elif kind == "wild":
        for step, v in sel.wild(value):
            yield child(node, step, v)
    elif kind == "keys":
        if isinstance(value, dict):
            for k in value:
                yield (k, None, None, node)
    elif kind == "filter":
        for step, v in sel.wild(value):
            if test(selector[1], v, step, root, ctx):
                yield child(node, step, v)
    else:
        raise AssertionError(kind)


def segment(nodes, seg, root, ctx):
    for node in nodes:
        if seg[0] == "desc":
            for d in descendants(node):
                for selector in seg[1]:
                    yield from select(d, selector, root, ctx)
        else:
            for selector in seg[1]:
                yield from select(node, selector, root, ctx)


def start(q, root, current, ctx):
    if q[0] == "$":
        return root
    if q[0] == "@":
        return current
    if q[0] == "_":
        return ctx
    if q[0] == "^":
        return [root]
    raise AssertionError(q[0])


def query(q, root, current, ctx):
    nodes = [(start(q, root, current, ctx), (), "$", None)]
    for seg in q[1]:
        nodes = segment(nodes, seg, root, ctx)
    return nodes


def document(q, root, ctx):
    return list(query(q, root, root, ctx))


def is_singular(q):
    for seg in q[1]:
        if seg[0] != "child" or len(seg[1]) != 1:
            return False
        if seg[1][0][0] not in ("name", "index"):
            return False
    return True


def singular(q, root, current, ctx):
    """The value of a query that selects at most one node, or Nothing."""
    nodes = list(query(q, root, current, ctx))
    if len(nodes) == 0:
        return NOTHING
    return nodes[0][0]


def test(e, current, key, root, ctx):
    kind = e[0]
    if kind == "and":
        return test(e[1], current, key, root, ctx) and test(e[2], current, key, root, ctx)
    if kind == "or":
        return test(e[1], current, key, root, ctx) or test(e[2], current, key, root, ctx)
    if kind == "not":
        return not test(e[1], current, key, root, ctx)
    if kind == "test":
        for _ in query(e[1], root, current, ctx):
            return True
        return False
    if kind == "fn":
        return call(e[1], e[2], current, key, root, ctx)
    if kind == "cmp":
        left = operand(e[2], current, key, root, ctx)
        if e[1] == "=~":
            return isinstance(left, str) and bool(re.fullmatch(e[3][1], left, flags_of(e[3][2])))
        return compare(e[1], left, operand(e[3], current, key, root, ctx))
    raise AssertionError(kind)


def flags_of(text):
    flags = 0
    for c in text:
        if c == "i":
            flags = flags | 2
        elif c == "m":
            flags = flags | 8
        elif c == "s":
            flags = flags | 16
        elif c == "a":
            flags = flags | 256
    return flags


def operand(o, current, key, root, ctx):
    kind = o[0]
    if kind == "lit":
        return o[1]
    if kind == "query":
        return singular(o[1], root, current, ctx)
    if kind == "fn":
        return call(o[1], o[2], current, key, root, ctx)
    if kind == "key":
        return key
    if kind == "undefined":
        return NOTHING
    if kind == "list":
        return [operand(x, current, key, root, ctx) for x in o[1]]
    raise AssertionError(kind)


def call(name, args, current, key, root, ctx):
    if name == "count":
        return len([n for n in query(args[0][1], root, current, ctx)])
    if name == "value":
        nodes = list(query(args[0][1], root, current, ctx))
        if len(nodes) == 1:
            return nodes[0][0]
        return NOTHING
    values = [operand(a, current, key, root, ctx) for a in args]
    if name == "length":
        v = values[0]
        if isinstance(v, (str, list, dict)):
            return len(v)
        return NOTHING
    if name == "match" or name == "search":
        text = values[0]
        pattern = values[1]
        if not isinstance(text, str) or not isinstance(pattern, str):
            return False
        try:
            if name == "match":
                return bool(re.fullmatch(pattern, text))
            return bool(re.search(pattern, text))
        except re.error:
            return False
    raise AssertionError(name)
