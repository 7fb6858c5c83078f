"""What a match's location leads back to."""

from __future__ import annotations

from typing import Any
from typing import List
from typing import Sequence

from .. import interp as I
from .. import loops
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import call
from ..scen import env
from ..scen import json
from ..scen import repo
from ..scen import spec
from ..values import Item
from ..values import TupV
from .agree import DOC
from .agree import sync_matches



def through(name: str, what: str, texts: Sequence[str], f: Any, seconds: float = 20.0, want: Any = None) -> List[Result]:
    """For every match m of each query: f(document, m) is m's value."""
    e = env()
    out = []
    for t in texts:

        def matches(d: Any, t: str = t) -> Any:
            return I.iter_segs(call(call(e, "compile", t), "finditer", d))

        out.append(
            product(
                f"{name} {t}",
                f"{what} of every match of `{t}`",
                lambda: json("doc", DOC),
                lambda d, m=matches: I.new_list(loops.map_run(m(d), lambda x: f(d, x))),
                lambda d, m=matches: I.new_list(
                    loops.map_run(m(d), (lambda x: want(d, x)) if want else (lambda x: I.getattr_(x, "obj")))
                ),
                Cmp,
                seconds=seconds,
                short_ints=2**53 - 1,
                doc_depth=2 if ".." in t else 3,
            )
        )
    return out


def pointers(texts: Sequence[str]) -> List[Result]:
    return through(
        "pointer", "the pointer", texts, lambda d, m: call(call(m, "pointer"), "resolve", d)
    )


def pointer_text(texts: Sequence[str]) -> List[Result]:
    def f(d: Any, m: Any) -> Any:
        s = I.call(I.pylib.builtin("str"), [call(m, "pointer")])
        p = I.call(repo("jsonpath.pointer.JSONPointer"), [s], {"unicode_escape": False})
        return call(p, "resolve", d)

    return through("pointer text", "the pointer's text, parsed and resolved,", texts, f)


def tup(vs: List[Any]) -> TupV:
    return TupV(tuple(Item(v) for v in vs))


def sound(texts: Sequence[str], seconds: float = 20.0) -> List[Result]:
    """Path, parts, pointer parts and parents of every match."""

    def got(d: Any, m: Any) -> Any:
        return tup(
            [
                I.getattr_(m, "obj"),
                I.getattr_(m, "path"),
                I.getattr_(call(m, "pointer"), "parts"),
                I.call(spec("locate.parents"), [m]),
            ]
        )

    def want(d: Any, m: Any) -> Any:
        parts = I.getattr_(m, "parts")
        return tup(
            [
                I.call(spec("locate.walk"), [d, parts]),
                I.call(spec("locate.normal"), [parts]),
                parts,
                I.call(spec("locate.ancestors"), [d, parts]),
            ]
        )

    return through("location", "the location", texts, got, seconds, want)
