"""Relative JSON Pointers."""

from __future__ import annotations

from typing import Any
from typing import List

from .. import dfa
from .. import interp as I
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import call
from ..scen import fn
from ..scen import integer
from ..scen import json
from ..scen import repo
from ..scen import spec
from ..values import Item
from ..values import TupV
from .pointers import LIMIT
from .pointers import NO_BACKSLASH
from .pointers import mode
from .pointers import parsed
from .pointers import text
from .pointers import to_str
from .pointers import tokens

HASH = dfa.prefix("#")


def offset(kind: str) -> Any:
    if kind == "none":
        return 0
    if kind == "positive":
        return integer("offset", 1, LIMIT)
    return integer("offset", -LIMIT, -1)


OFFSETS = ("none", "positive", "negative")
SUFFIXES = ("#", 0, 1, 2)


def applying(n: int = 2, offsets: Any = OFFSETS, suffixes: Any = SUFFIXES, seconds: float = 60.0, least: int = 0, brief: bool = False) -> List[Result]:
    out = []
    cls = repo("jsonpath.pointer.RelativeJSONPointer")
    spelled = spec("relative.spelled")

    def rel(x: Any, esc: bool) -> Any:
        return I.call(cls, [I.call(spelled, list(x))], {"unicode_escape": esc})

    for esc in (False,) if brief else (False, True):
        lang = NO_BACKSLASH if esc else None
        for off in offsets:
            for suffix in suffixes:
                sname = "`#`" if suffix == "#" else f"{suffix} tokens"

                def suf(suffix: Any = suffix, lang: Any = lang) -> Any:
                    return "#" if suffix == "#" else tokens(suffix, lang, "s")

                out.append(
                    product(
                        f"print, offset {off}, suffix {sname}, {mode(esc)}",
                        "the text of a parsed relative pointer",
                        lambda off=off, suf=suf: (integer("steps", 0, LIMIT), offset(off), suf()),
                        lambda x, esc=esc: to_str(rel(x, esc)),
                        lambda x: I.call(spelled, list(x)),
                        Cmp,
                        seconds=seconds,
                        short_ints=LIMIT,
                    )
                )
                for i in range(least, n + 1):
                    for steps in (*range(i + 1), None):

                        def setup(i: int = i, steps: Any = steps, off: str = off, suf: Any = suf, lang: Any = lang) -> Any:
                            s = integer("steps", i + 1, LIMIT) if steps is None else steps
                            return tokens(i, lang), s, offset(off), suf()

                        ways = {
                            "RelativeJSONPointer.to a pointer": lambda x, esc=esc: call(rel(x[1:], esc), "to", parsed(x[0], esc)),
                            "RelativeJSONPointer.to a pointer's text": lambda x, esc=esc: call(rel(x[1:], esc), "to", text(x[0]), unicode_escape=esc),
                            "JSONPointer.to a relative pointer": lambda x, esc=esc: call(parsed(x[0], esc), "to", rel(x[1:], esc)),
                            "JSONPointer.to its text": lambda x, esc=esc: call(parsed(x[0], esc), "to", I.call(spelled, list(x[1:])), unicode_escape=esc),
                        }
                        for way, f in list(ways.items())[: 1 if brief else None]:
                            out.append(
                                product(
                                    f"{way}: {i} tokens, {'too many' if steps is None else steps} steps, offset {off}, suffix {sname}, {mode(esc)}",
                                    "what applying a relative pointer gives",
                                    setup,
                                    lambda x, f=f: I.call(spec("relative.applied"), [fn(lambda: f(x)), *x]),
                                    lambda x: I.call(spec("relative.apply"), list(x)),
                                    Cmp,
                                    seconds=seconds,
                                    short_ints=LIMIT,
                                )
                            )
    return out


_ = (Item, TupV, json)
