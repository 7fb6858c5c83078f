"""Methods that decorators and base classes of the standard library write.

They're written as source, and analysed like any other.
"""

from __future__ import annotations

import ast
from typing import Any
from typing import Dict
from typing import List
from typing import Tuple

from . import interp as I
from .state import MISSING
from .values import ClassV

_TREES: Dict[str, ast.Module] = {}


class Field:
    """What dataclasses.field() returns."""

    def __init__(self, k: Dict[str, Any]):
        self.k = k


def write(c: ClassV, fr: Any, src: str, names: Dict[str, Any], keep: bool = True) -> None:
    """Add methods to a class, where it doesn't have them."""
    tree = _TREES.get(src)
    if tree is None:
        tree = _TREES[src] = ast.parse(src)
    outer = I.Frame(fr, c.module, None)
    outer.f.update(names)
    cf = I.ClassFrame(outer, c.module, None)
    cf.cls = c
    I.exec_body(tree.body, cf)
    for k, v in cf.f.items():
        if not keep or k not in c.f:
            c.f[k] = v


def _flag(k: Dict[str, Any], name: str, default: bool) -> bool:
    v = k.get(name, default)
    if not isinstance(v, bool):
        I.undecided(f"dataclass({name}=...)")
    return v


def fields_of(c: ClassV) -> List[Tuple[str, Any, bool]]:
    out: Dict[str, Tuple[str, Any, bool]] = {}
    for b in reversed(c.mro):
        for f in b.f.get("#dataclass", {}).get("fields", ()) if isinstance(b.f.get("#dataclass"), dict) else ():
            out[f[0]] = f
    return list(out.values())


def dataclass(c: ClassV, k: Dict[str, Any]) -> ClassV:
    from . import pylib

    kw_only = _flag(k, "kw_only", False)
    own = []
    for n in c.f.get("#fields", ()):
        d = c.f.get(n, MISSING)
        spec = d.k if isinstance(d, Field) else ({} if d is MISSING else {"default": d})
        if isinstance(d, Field):
            if "default" in spec:
                c.f[n] = spec["default"]
            else:
                del c.f[n]
        own.append((n, spec, kw_only or spec.get("kw_only") is True))
    c.f["#dataclass"] = {"fields": own}
    fields = fields_of(c)
    names: Dict[str, Any] = {}
    params: List[str] = []
    kws: List[str] = []
    body: List[str] = []
    for i, (n, spec, kwo) in enumerate(fields):
        p = n
        if "default" in spec:
            names[f"_default_{i}"] = spec["default"]
            p += f"=_default_{i}"
        elif "default_factory" in spec:
            names[f"_factory_{i}"] = spec["default_factory"]
            names["_MISSING"] = "\0missing"
            p += "=_MISSING"
        if spec.get("init") is False:
            if "default_factory" in spec:
                body.append(f"    object.__setattr__(self, {n!r}, _factory_{i}())")
            elif "default" in spec:
                body.append(f"    object.__setattr__(self, {n!r}, _default_{i})")
            continue
        (kws if kwo else params).append(p)
        v = f"_factory_{i}() if {n} is _MISSING else {n}" if "default_factory" in spec else n
        body.append(f"    object.__setattr__(self, {n!r}, {v})")
    post = I.find_attr(c, "__post_init__")
    if post is not MISSING:
        body.append("    self.__post_init__()")
    src = ""
    if _flag(k, "init", True):
        sig = ", ".join(["self", *params, *(["*", *kws] if kws else [])])
        src += f"def __init__({sig}):\n" + "\n".join(body or ["    pass"]) + "\n"
    cmpd = [n for n, s, _ in fields if s.get("compare") is not False]

    def tup(o: str) -> str:
        return "(" + "".join(f"{o}.{n}, " for n in cmpd) + ")"

    eq = _flag(k, "eq", True)
    if eq:
        src += f"def __eq__(self, other):\n    if other.__class__ is not self.__class__:\n        return NotImplemented\n    return {tup('self')} == {tup('other')}\n"
    if _flag(k, "order", False):
        for m, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            src += f"def __{m}__(self, other):\n    if other.__class__ is not self.__class__:\n        return NotImplemented\n    return {tup('self')} {op} {tup('other')}\n"
    if _flag(k, "repr", True):
        shown = [n for n, s, _ in fields if s.get("repr") is not False]
        text = ", ".join(f"{n}={{self.{n}!r}}" for n in shown)
        src += f'def __repr__(self):\n    return f"{{type(self).__qualname__}}({text})"\n'
    frozen = _flag(k, "frozen", False)
    had_hash = "__hash__" in c.f
    if eq and frozen and not had_hash or _flag(k, "unsafe_hash", False):
        src += f"def __hash__(self):\n    return hash({tup('self')})\n"
    write(c, None, src, names)
    if eq and not frozen and not had_hash and not _flag(k, "unsafe_hash", False):
        c.f["__hash__"] = None
    c.f.setdefault("__match_args__", tuple(n for n, s, kwo in fields if not kwo and s.get("init") is not False))
    _ = pylib
    return c


TUPLE = """
def __iter__(self):
    return iter(self._astuple())
def __len__(self):
    return len(self._fields)
def __getitem__(self, i):
    return self._astuple()[i]
def __contains__(self, v):
    return v in self._astuple()
def __eq__(self, other):
    return isinstance(other, tuple) and self._astuple() == tuple(other)
def __hash__(self):
    return hash(self._astuple())
def __lt__(self, other):
    return self._astuple() < tuple(other)
def __le__(self, other):
    return self._astuple() <= tuple(other)
def __gt__(self, other):
    return self._astuple() > tuple(other)
def __ge__(self, other):
    return self._astuple() >= tuple(other)
def __add__(self, other):
    return self._astuple() + tuple(other)
def __bool__(self):
    return len(self._fields) > 0
def count(self, v):
    return self._astuple().count(v)
def index(self, v):
    return self._astuple().index(v)
def _asdict(self):
    return {n: getattr(self, n) for n in self._fields}
def _replace(self, **k):
    return type(self)(**{**self._asdict(), **k})
@classmethod
def _make(cls, it):
    return cls(*it)
"""


def namedtuple(c: ClassV, fields: List[str], defaults: Dict[str, Any]) -> ClassV:
    names = {f"_default_{n}": v for n, v in defaults.items()}
    sig = ", ".join(["self", *[f"{n}=_default_{n}" if n in defaults else n for n in fields]])
    src = f"def __init__({sig}):\n"
    src += "".join(f"    object.__setattr__(self, {n!r}, {n})\n" for n in fields) or "    pass\n"
    src += "def _astuple(self):\n    return (" + "".join(f"self.{n}, " for n in fields) + ")\n"
    text = ", ".join(f"{n}={{self.{n}!r}}" for n in fields)
    src += f'def __repr__(self):\n    return f"{{type(self).__name__}}({text})"\n'
    for n in fields:
        # (The defaults aren't the attributes' values.)
        c.f.pop(n, None)
    c.f["_fields"] = tuple(fields)
    c.f.setdefault("__match_args__", tuple(fields))
    c.f["#namedtuple"] = True
    write(c, None, src + TUPLE, names)
    return c
