"""Selectors applied to one node and to several."""

from __future__ import annotations

import ast
from typing import Any
from typing import Callable
from typing import List

from .. import interp as I
from ..check import Result
from ..check import product
from ..scen import agen
from ..scen import call
from ..scen import env
from ..scen import integer
from ..scen import json
from ..scen import match
from ..scen import match_cmp
from ..scen import new
from ..scen import seq
from ..scen import spec
from ..scen import string
from ..scen import token
from ..values import Inst
from ..values import Item
from ..values import TupV

M = "jsonpath.selectors."


def kinds(e: Any) -> List[Any]:
    """(name, make the selector, reference)"""
    lo, hi = I.getattr_(e, "min_int_index"), I.getattr_(e, "max_int_index")
    tok = lambda: token()  # noqa: E731

    def ints(*names: str) -> Any:
        return [integer(n, lo, hi) for n in names]

    def mkslice(**k: Any) -> Any:
        return new(M + "SliceSelector", env=e, token=tok(), **k)

    out = [
        (
            "name",
            lambda: new(M + "PropertySelector", env=e, token=tok(), name=string("n"), shorthand=False),
            lambda v: I.call(spec("sel.name"), [v, string("n")]),
        ),
        (
            "index",
            lambda: new(M + "IndexSelector", env=e, token=tok(), index=ints("i")[0]),
            lambda v: I.call(spec("sel.index"), [v, integer("i")]),
        ),
        (
            "wildcard",
            lambda: new(M + "WildSelector", env=e, token=tok(), shorthand=False),
            lambda v: I.call(spec("sel.wild"), [v]),
        ),
    ]

    def slices(s: Any, t: Any, st: Any) -> Any:
        name = "slice " + ":".join("" if x is None else str(x) for x in (s, t, st))

        def vals() -> Any:
            return [integer(x, lo, hi) if isinstance(x, str) else x for x in (s, t, st)]

        def mk_() -> Any:
            a, b, c = vals()
            return mkslice(start=a, stop=b, step=c)

        return (name, mk_, lambda v: I.call(spec("sel.slice_"), [v, *vals()]))

    for s in (None, "a"):
        for t in (None, "b"):
            for st in (None, 1, -1, 2, -2, 0, "c"):
                out.append(slices(s, t, st))
    return out


def expected_matches(m: Any, pairs: Any, e: Any) -> List[Any]:
    """The matches that follow from _m_ by some (step, value) pairs."""
    from .. import loops

    norm = spec("sel.norm_step")
    cls = I.getattr_(e, "match_class")

    def f(p: Any) -> Any:
        step, val = p
        return I.call(
            cls,
            [],
            {
                "filter_context": I.call(I.getattr_(m, "filter_context"), []),
                "obj": val,
                "parent": m,
                "parts": I.pylib.binop(ast.Add(), I.getattr_(m, "parts"), (step,)),
                "path": I.pylib.cat(I.getattr_(m, "path"), I.call(norm, [step])),
                "root": I.getattr_(m, "root"),
            },
        )

    return loops.map_run(I.iter_segs(pairs), f)


def single(aspects: Any, seconds: float = 30.0, only: Any = None) -> List[Result]:
    """Every selector on a list with one unknown node."""
    e = env()
    out = []
    for name, mk_, ref in kinds(e):
        if only is not None and not only(name):
            continue

        def setup(mk_: Any = mk_) -> Any:
            return mk_(), match(e)

        def actual(x: Any) -> Any:
            s, m = x
            return seq(call(s, "resolve", I.new_list([Item(m)])))

        def expected(x: Any, ref: Any = ref) -> Any:
            s, m = x
            return I.new_list(expected_matches(m, ref(I.getattr_(m, "obj")), e))

        out.append(
            product(
                f"sel.{name}",
                f"{name} selector on one node of any kind",
                setup,
                actual,
                expected,
                match_cmp(aspects),
                seconds=seconds,
            )
        )
    return out


_ = (agen, json, Inst, TupV, Callable)
