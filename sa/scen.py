"""Abstract inputs."""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Tuple

from . import interp as I
from .cmp import Cmp
from .freeze import NAMED
from .state import DICT
from .state import INT
from .state import JSON
from .state import KINT
from .state import KSTR
from .state import LIST
from .state import sym
from .values import S
from .values import Builtin
from .values import DictV
from .values import Each
from .values import Inst
from .values import Item
from .values import IterV
from .values import ListV
from .values import Opaque
from .values import Sym
from .values import TupV
from .values import getf
from .values import reset_state


class Anchor(Exception):
    """Something public that the properties are about isn't there any more."""


_ready: Dict[str, Any] = {}


def repo(path: str) -> Any:
    """A public name of the package, such as `jsonpath.selectors.Filter`."""
    start()
    parts = path.split(".")
    o: Any = None
    for i in range(len(parts), 0, -1):
        n = ".".join(parts[:i])
        if I.module_path(n):
            o = I.load(n)
            rest = parts[i:]
            break
    else:
        raise Anchor(path)
    for p in rest:
        v = I.modelled_attr(o, p)
        if v is I.MISSING:
            raise Anchor(path)
        o = v
    return o


def spec(path: str) -> Any:
    start()
    mod, _, fn = path.rpartition(".")
    return I.load("spec." + mod).f[fn]


def start() -> None:
    """Load every module once, outside of any partition."""
    if _ready:
        return
    import os

    _ready["x"] = True
    reset_state()

    def go() -> None:
        mods = ["jsonpath"]
        base = os.path.join(I.REPO, "jsonpath")
        for dp, dn, fn in os.walk(base):
            for f in sorted(fn):
                if f.endswith(".py") and f != "__main__.py":
                    rel = os.path.relpath(os.path.join(dp, f), I.REPO)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    mods.append(rel)
        for m in mods:
            I.load(m)
        for f in sorted(os.listdir(I.SPEC)):
            if f.endswith(".py") and f != "__init__.py":
                I.load("spec." + f[:-3])

    n = S.explore(go)
    if n != 1:
        raise RuntimeError("loading the package depends on something unknown")


_envs: Dict[Any, Any] = {}


def env(cls: Any = None, **kw: Any) -> Any:
    """An environment, made once."""
    cls = cls or repo("jsonpath.env.JSONPathEnvironment")
    key = (cls.name, id(cls), tuple(sorted(kw.items())))
    if key not in _envs:
        box: List[Any] = []
        saved = S.layers
        S.layers = []
        S.explore(lambda: box.append(I.call(cls, [], dict(kw))))
        S.layers = saved
        _envs[key] = box[0]
        NAMED[id(box[0])] = ("env", len(_envs))
    return _envs[key]


def fn(f: Callable[..., Any], name: str = "scenario") -> Builtin:
    return Builtin(name, lambda a, k: f(*a, **k))


# --- documents and matches ----------------------------------------------------------------

FCTX = Sym(sym("filter_context", frozenset([DICT])))
ROOT = Sym(sym("root", JSON))


def unknown_parts(name: str) -> TupV:
    var = I.newvar()
    dom = ("stream", sym(name + ".parts"))
    return TupV((Each(dom, var, (((), (Item(Sym(("elem", dom, var))),)),)),))


def match(e: Any, name: str = "node", obj: Any = None, root: Any = None, ctx: Any = None, parts: Any = None, path: Any = None, parent: Any = None) -> Any:
    """A match at an unknown location."""
    cls = I.getattr_(e, "match_class")
    return I.call(
        cls,
        [],
        {
            "filter_context": ctx if ctx is not None else FCTX,
            "obj": obj if obj is not None else Sym(sym(name, JSON)),
            "parent": parent,
            "parts": parts if parts is not None else unknown_parts(name),
            "path": path if path is not None else Sym(sym(name + ".path", KSTR)),
            "root": root if root is not None else ROOT,
        },
    )


def match_cmp(aspects: Tuple[str, ...], identity: bool = True) -> Callable[[], Cmp]:
    """Compare matches by what can be observed of them."""
    cls = repo("jsonpath.match.JSONPathMatch")

    def obs(m: Any) -> Any:
        out = []
        for a in aspects:
            if a == "ctx":
                out.append(I.call(I.getattr_(m, "filter_context"), []))
            else:
                out.append(I.getattr_(m, a))
        return tuple(out)

    return lambda: Cmp(observers=((cls, obs),), identity=identity)


def seq(v: Any, is_async: bool = False) -> ListV:
    """Everything an iterator produces, as a list."""
    return I.new_list(I.iter_segs(v, is_async))


def agen(items: List[Any]) -> IterV:
    return I.gen(lambda: tuple(Item(x) for x in items), True, "async input")


def call(o: Any, name: str, *a: Any, **k: Any) -> Any:
    return I.call(I.getattr_(o, name), list(a), k)


def new(path: str, *a: Any, **k: Any) -> Any:
    return I.call(repo(path), list(a), k)


def token(kind: str = "TOKEN", value: Any = "", index: int = 0, path: Any = "") -> Any:
    return new("jsonpath.token.Token", kind, value, index, path)


def integer(name: str, lo: Any = None, hi: Any = None) -> Sym:
    t = sym(name, KINT)
    from .state import ladd

    if lo is not None:
        S.assume_le0(ladd(lo, t, -1))
    if hi is not None:
        S.assume_le0(ladd(t, hi, -1))
    return Sym(t)


def string(name: str, lang: Any = None) -> Sym:
    return Sym(("sym", name, KSTR, lang) if lang is not None else sym(name, KSTR))


def json(name: str, kinds: Any = JSON) -> Sym:
    return Sym(sym(name, frozenset(kinds)))


_ = (DictV, Inst, Opaque, getf, INT, LIST)
