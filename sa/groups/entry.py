"""Entry points: simple and compound queries through every one of them."""

from __future__ import annotations

from typing import Any
from typing import List
from typing import Sequence

from .. import interp as I
from .. import refparse
from ..check import Result
from ..check import product
from ..scen import FCTX
from ..scen import call
from ..scen import env
from ..scen import json
from ..scen import new
from ..scen import repo
from ..scen import seq
from ..scen import spec
from ..scen import string
from ..state import DICT
from ..state import JSON
from ..state import LIST
from ..state import STR
from ..state import Infeasible
from ..values import S
from .agree import ALL
from .agree import loc_cmp
from .whole import node_cmp

DOC = JSON - {STR}


def top(name: str) -> Any:
    return I.getattr_(I.load("jsonpath"), name)


def points(text: str) -> Any:
    """(name, how, what it must be in terms of the compiled query's finditer)"""
    e = env()
    kw = {"filter_context": FCTX}

    def it(d: Any) -> Any:
        return call(call(e, "compile", text), "finditer", d, **kw)

    def compiled() -> Any:
        return call(e, "compile", text)

    def objs(d: Any) -> Any:
        return I.call(spec("entry.objs"), [it(d)])

    def first(d: Any) -> Any:
        return I.call(spec("entry.first"), [it(d)])

    return [
        ("findall", lambda d: call(compiled(), "findall", d, **kw), objs),
        ("match", lambda d: call(compiled(), "match", d, **kw), first),
        ("query.values", lambda d: seq(call(call(compiled(), "query", d, **kw), "values")), objs),
        ("query", lambda d: seq(call(compiled(), "query", d, **kw)), lambda d: seq(it(d))),
        ("env.findall", lambda d: call(e, "findall", text, d, **kw), objs),
        ("env.finditer", lambda d: seq(call(e, "finditer", text, d, **kw)), lambda d: seq(it(d))),
        ("env.match", lambda d: call(e, "match", text, d, **kw), first),
        ("env.query", lambda d: seq(call(e, "query", text, d, **kw)), lambda d: seq(it(d))),
        ("jsonpath.findall", lambda d: I.call(top("findall"), [text, d], dict(kw)), objs),
        ("jsonpath.finditer", lambda d: seq(I.call(top("finditer"), [text, d], dict(kw))), lambda d: seq(it(d))),
        ("jsonpath.match", lambda d: I.call(top("match"), [text, d], dict(kw)), first),
        ("jsonpath.query", lambda d: seq(I.call(top("query"), [text, d], dict(kw))), lambda d: seq(it(d))),
    ]


def agreement(texts: Sequence[str], only: Any = None, seconds: float = 20.0, doc_depth: int = 2) -> List[Result]:
    out = []
    for t in texts:
        for name, how, want in points(t):
            if only and name not in only:
                continue
            out.append(
                product(
                    f"{name} {t}",
                    f"{name} of `{t}` against finditer",
                    lambda: json("doc", DOC),
                    how,
                    want,
                    loc_cmp(ALL),
                    doc_depth=doc_depth,
                    seconds=seconds,
                )
            )
    return out


def compounds(texts: Sequence[str], seconds: float = 40.0, doc_depth: int = 2) -> List[Result]:
    e = env()
    out = []
    for t in texts:
        tree = refparse.parse(t)
        for name, how in (
            ("finditer", lambda p, d: seq(call(p, "finditer", d, filter_context=FCTX))),
            ("findall", lambda p, d: call(p, "findall", d, filter_context=FCTX)),
        ):

            def want(d: Any, name: str = name, tree: Any = tree) -> Any:
                nodes = I.call(spec("entry.compound"), [tree, d, FCTX])
                return nodes if name == "finditer" else I.call(spec("entry.values"), [nodes])

            out.append(
                product(
                    f"compound {name} {t}",
                    f"{name} of `{t}` against the definition of | and &",
                    lambda: json("doc", DOC),
                    lambda d, how=how, t=t: how(call(e, "compile", t), d),
                    want,
                    node_cmp(("obj",)),
                    doc_depth=doc_depth,
                    seconds=seconds,
                )
            )
    return out


def built(pairs: Sequence[Any], seconds: float = 30.0) -> List[Result]:
    """`union()` and `intersection()` against the compound query's text."""
    e = env()
    out = []
    for first, rest in pairs:
        text = first + "".join(f" {op} {q}" for op, q in rest)

        def mk(first: str = first, rest: Any = rest) -> Any:
            p = call(e, "compile", first)
            for op, q in rest:
                p = call(p, "union" if op == "|" else "intersection", call(e, "compile", q))
            return p

        out.append(
            product(
                f"built {text}",
                f"`{text}` built with union() and intersection()",
                lambda: json("doc", DOC),
                lambda d, mk=mk: seq(call(mk(), "finditer", d)),
                lambda d, text=text: seq(call(call(e, "compile", text), "finditer", d)),
                loc_cmp(ALL),
                doc_depth=2,
                seconds=seconds,
            )
        )
    return out


def forms(texts: Sequence[str], names: Sequence[str], seconds: float = 20.0) -> List[Result]:
    """A document as text and as a file against the parsed value."""
    out = []
    for t in texts:
        for name, how, _ in points(t):
            if name not in names:
                continue
            for form in ("text", "file"):

                def setup() -> Any:
                    s = string("text")
                    if not S.decide(("validjson", s.term)):
                        raise Infeasible
                    v = I.call(spec("entry.parsed"), [s])
                    if not S.is_kind(v.term, frozenset([DICT, LIST])):
                        raise Infeasible
                    return s, v

                def actual(x: Any, how: Any = how, form: str = form) -> Any:
                    s, v = x
                    return how(s if form == "text" else I.call(spec("entry.TextFile"), [s]))

                out.append(
                    product(
                        f"{form} {name} {t}",
                        f"{name} of `{t}` for a document given as {form} against its parsed value",
                        setup,
                        actual,
                        lambda x, how=how: how(x[1]),
                        loc_cmp(ALL),
                        doc_depth=2,
                        seconds=seconds,
                    )
                )
    return out


_ = new
