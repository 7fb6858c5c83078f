"""Inputs that are known to fail."""

from jsonpath import JSONPatch
from jsonpath import JSONPointer
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPointerError


def resolved(value, name):
    try:
        return ("value", JSONPointer("/" + name).resolve({name: value}))
    except JSONPointerError:
        return ("error",)


def value(v):
    return ("value", v)


def printed(text):
    try:
        return ("text", str(JSONPointer(text)))
    except JSONPointerError:
        return ("error",)


def replaced(v, name):
    try:
        return ("value", JSONPatch([{"op": "replace", "path": "/" + name, "value": v}]).apply({name: None}))
    except (JSONPatchError, JSONPointerError):
        return ("error",)


def expected(v, name):
    return ("value", {name: v})


def again(path):
    first = JSONPatch([{"op": "remove", "path": path}]).asdicts()
    try:
        return JSONPatch(first).asdicts() == first
    except JSONPatchError:
        return False
