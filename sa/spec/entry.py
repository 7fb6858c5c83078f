"""How the entry points relate to one another."""

import json
from io import IOBase

from . import ref


class TextFile(IOBase):
    """A readable file: its text can be read once."""

    def __init__(self, text):
        self.text = text

    def read(self, size=-1):
        text = self.text
        self.text = ""
        return text


def first(xs):
    for x in xs:
        return x
    return None


def objs(ms):
    return [m.obj for m in ms]


def values(nodes):
    return [n[0] for n in nodes]


def member(x, ys):
    return any(ref.json_equal(x, y) for y in ys)


def compound(tree, doc, ctx):
    if tree[0] != "compound":
        return ref.document(tree, doc, ctx)
    nodes = ref.document(tree[1], doc, ctx)
    for op, q in tree[2]:
        other = ref.document(q, doc, ctx)
        if op == "|":
            nodes = nodes + other
        else:
            vals = [n[0] for n in other]
            nodes = [n for n in nodes if member(n[0], vals)]
    return nodes


def parsed(text):
    return json.loads(text)


class AsyncDict(dict):
    """An object with an asynchronous item getter."""

    async def __getitem_async__(self, key):
        return self[key]


class AsyncList(list):
    """An array with an asynchronous item getter."""

    async def __getitem_async__(self, key):
        return self[key]


def async_doc(x, y, z):
    return AsyncDict(
        {
            "a": AsyncList([x, AsyncDict({"b": y, "c": 1}), z]),
            "b": AsyncDict({"a": AsyncList([AsyncDict({"a": x})]), "0": z}),
            "c": y,
        }
    )
