"""Chains of query iterator operations."""

from __future__ import annotations

from typing import Any
from typing import List
from typing import Sequence
from typing import Tuple

from .. import interp as I
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import call
from ..scen import env
from ..scen import integer
from ..scen import json
from ..scen import spec
from ..state import LIST

ARRAY = frozenset([LIST])
VIEWS = ("values", "locations", "items", "pointers", "matches")
NARROW = ("limit", "head", "first", "drop", "skip", "tail", "last")
ONE = ("first_one", "one", "last_one")
NO_COUNT = (*ONE, "tee", "other", "next")
# One of each kind.
BASIC = ("limit", "drop", "tail", "take", "tee", "first_one", "last_one")


def count(name: str, k: Any, i: int) -> Any:
    if k is not None:
        return k
    if name in NO_COUNT:
        return None
    return integer(f"n{i}", -1000, 1000)


def chains(shapes: Sequence[Sequence[Any]], views: Sequence[str] = ("values",), orders: Sequence[bool] = (False, True), seconds: float = 30.0) -> List[Result]:
    """Each shape is a sequence of operation names, or pairs of a name and a count."""
    e = env()
    out = []
    for shape in shapes:
        named = [(s, None) if isinstance(s, str) else s for s in shape]
        title = ".".join(f"{n}({'' if n in NO_COUNT and k is None else '…' if k is None else k})" for n, k in named)
        forks = any(n in ("take", "tee") for n, _ in named)
        for how in views:
            for late in orders if forks else (False,):
                out.append(
                    product(
                        f"{title}, {how}{', the rest first' if late else ''}",
                        "what the operations give for a sequence of matches of any length, with any counts",
                        lambda named=named: (
                            json("doc", ARRAY),
                            tuple((n, count(n, k, i)) for i, (n, k) in enumerate(named)),
                        ),
                        lambda x, how=how, late=late: I.call(
                            spec("stream.run"), [call(e, "query", "$[*]", x[0]), x[1], how, late]
                        ),
                        lambda x, how=how, late=late: I.call(
                            spec("stream.expected"), [I.call(spec("stream.located"), [x[0]]), x[1], how, late]
                        ),
                        Cmp,
                        seconds=seconds,
                        doc_depth=2,
                    )
                )
    return out
