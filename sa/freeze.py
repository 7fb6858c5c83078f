"""Hashable descriptions of abstract values, for use in terms."""

from __future__ import annotations

from typing import Any
from typing import List

from .state import Undecided
from .values import BoundV
from .values import Builtin
from .values import ClassV
from .values import CoroV
from .values import DictV
from .values import Each
from .values import Ext
from .values import FuncV
from .values import Inst
from .values import Item
from .values import IterV
from .values import ListV
from .values import MatchV
from .values import ModuleV
from .values import Opaque
from .values import Poison
from .values import RaiseSeg
from .values import RangeV
from .values import RegexV
from .values import SliceV
from .values import Sym
from .values import TupV
from .values import getf

# Fields that don't identify an object: filled in as its descendants are visited.
SKIP_FIELDS = {"children"}


# Objects made once and for all, by identity.
NAMED: dict = {}


def freeze(v: Any, stack: Any = ()) -> Any:
    if isinstance(v, Sym):
        return v.term
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v if not isinstance(v, (bool, float)) else ("c", type(v).__name__, v)
    if isinstance(v, tuple):
        return ("tup", *[freeze(x, stack) for x in v])
    if isinstance(v, TupV):
        return ("tupv", freeze_segs(v.segs, stack))
    if isinstance(v, Item):
        return ("item", freeze(v.v, stack))
    if isinstance(v, (Each, RaiseSeg)):
        return freeze_segs((v,), stack)
    if id(v) in NAMED:
        return NAMED[id(v)]
    if id(v) in stack:
        return ("cycle", stack.index(id(v)))
    st = (*stack, id(v))
    if isinstance(v, (ListV, DictV)):
        return ("coll", v.cls.name, freeze_segs(getf(v, "#segs"), st))
    if isinstance(v, Inst):
        names = sorted(k for k in v.f if k not in SKIP_FIELDS and not k.startswith("#"))
        return ("inst", v.cls.name, *[(k, freeze(getf(v, k), st)) for k in names])
    if isinstance(v, Opaque):
        return v.term
    if isinstance(v, ClassV):
        return ("class", v.name)
    if isinstance(v, FuncV):
        return ("func", v.qualname, id(v))
    if isinstance(v, BoundV):
        return ("bound", freeze(v.func, st), freeze(v.self, st))
    if isinstance(v, Builtin):
        return ("builtin", v.name)
    if isinstance(v, SliceV):
        return ("slice", freeze(v.start), freeze(v.stop), freeze(v.step))
    if isinstance(v, RangeV):
        return ("rangev", freeze(v.lo), freeze(v.hi), freeze(v.step))
    if isinstance(v, RegexV):
        return ("regex", freeze(v.pattern), v.flags)
    if isinstance(v, MatchV):
        return ("match", freeze(v.regex), freeze(v.text), v.kind)
    if isinstance(v, ModuleV):
        return ("module", v.name)
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, IterV):
        rem = getf(v, "#rem")
        if rem is None:
            raise Undecided("an iterator in a term")
        return ("iter", freeze_segs(rem, st))
    if isinstance(v, (Poison, CoroV)):
        raise Undecided("a value that can't be named")
    raise Undecided(f"can't name {v!r}")


def _nest(t: Any) -> int:
    if not isinstance(t, tuple):
        return 0
    if len(t) == 4 and t[0] == "each" and t[2][0] == "bv":
        return int(t[2][1][1:])
    return max([_nest(x) for x in t], default=0)


def freeze_segs(segs: Any, stack: Any = ()) -> Any:
    from .loops import subst_term

    out: List[Any] = []
    for s in segs:
        if isinstance(s, Item):
            out.append(("item", freeze(s.v, stack)))
        elif isinstance(s, RaiseSeg):
            out.append(("raise", s.exc.cls.name))
        else:
            # The bound variable is named after how deeply it is nested.
            cases = tuple((g, freeze_segs(x, stack)) for g, x in s.cases)
            lv = s.var[1]
            nest = 1 + max([_nest(c) for c in cases], default=0)
            bv = ("bv", f"f{nest}")
            out.append(
                (
                    "each",
                    s.dom,
                    bv,
                    tuple(subst_term(c, lambda v: bv if v[1] == lv else v) for c in cases),
                )
            )
    return ("segs", *out)
