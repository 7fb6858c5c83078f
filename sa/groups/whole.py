"""Whole queries: a known query text and an unknown document."""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import List
from typing import Sequence

from .. import interp as I
from .. import refparse
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import FCTX
from ..scen import call
from ..scen import env
from ..scen import json
from ..scen import repo
from ..scen import seq
from ..scen import spec
from ..state import JSON
from ..state import STR
from ..values import Inst
from ..values import TupV

DOC = JSON - {STR}


def node_cmp(aspects: Sequence[str]) -> Callable[[], Cmp]:
    """Compare matches with the reference's nodes."""
    cls = repo("jsonpath.match.JSONPathMatch")
    pos = {"obj": 0, "parts": 1, "path": 2, "parent": 3}

    def obs(m: Any) -> Any:
        out = []
        for i, a in enumerate(("obj", "parts", "path", "parent")):
            out.append(I.getattr_(m, a) if a in aspects else None)
        return tuple(out)

    del pos

    class C(Cmp):
        def same(self, a: Any, b: Any, what: str = "value") -> None:
            if isinstance(a, Inst) and cls in a.cls.mro and isinstance(b, tuple):
                exp = tuple(
                    x if n in aspects else None
                    for n, x in zip(("obj", "parts", "path", "parent"), b)
                )
                got = obs(a)
                for n, x, y in zip(("obj", "parts", "path", "parent"), got, exp):
                    Cmp.same(self, x, y, f"{what}.{n}") if n != "parent" else self.same(x, y, f"{what}.{n}")
                return
            Cmp.same(self, a, b, what)

    return lambda: C()


def evaluate(
    texts: Sequence[str],
    aspects: Sequence[str],
    prefix: str = "query",
    env_: Any = None,
    how: Any = None,
    spelled: Any = None,
    doc_depth: int = 3,
    seconds: float = 30.0,
    kinds: Any = DOC,
) -> List[Result]:
    out = []
    for text in texts:
        out.append(
            one(text, aspects, prefix, env_ or env(), how, spelled, doc_depth, seconds, kinds)
        )
    return out


def one(text, aspects, prefix, e, how, spelled, doc_depth, seconds, kinds) -> Result:
    tree = refparse.parse(text)
    src = spelled(tree) if spelled else text

    def setup() -> Any:
        return json("doc", kinds)

    def actual(doc: Any) -> Any:
        p = call(e, "compile", src)
        if how is not None:
            return how(p, doc)
        return seq(call(p, "finditer", doc, filter_context=FCTX))

    def expected(doc: Any) -> Any:
        return I.call(spec("ref.document"), [tree, doc, FCTX])

    return product(
        f"{prefix} {src}",
        f"`{src}` on an unknown document",
        setup,
        actual,
        expected,
        node_cmp(aspects),
        doc_depth=doc_depth,
        seconds=seconds,
    )


_ = TupV
