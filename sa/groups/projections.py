"""Projections of what queries select."""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import List
from typing import Sequence

from .. import interp as I
from .. import refparse
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import call
from ..scen import env
from ..scen import json
from ..scen import repo
from ..scen import spec
from ..state import DICT
from ..state import LIST
from ..state import STR
from ..state import JSON
from ..state import Undecided
from ..values import S
from ..values import Sym
from ..values import DictV

DOC = JSON - {STR}
STYLES = ("RELATIVE", "ROOT", "FLAT")


SCALAR = JSON - {LIST, DICT}


def leaf(name: str) -> Any:
    return json(name, SCALAR)


def shaped(shape: Any, name: str = "x") -> Any:
    """A document of a given shape: None is any scalar."""
    if shape is None:
        return leaf(name)
    if isinstance(shape, list):
        return I.new_list([I.Item(shaped(x, f"{name}.{i}")) for i, x in enumerate(shape)])
    if isinstance(shape, dict):
        return DictV(I.DICTC, tuple(I.Item((k, shaped(v, f"{name}.{k}"))) for k, v in shape.items()))
    return shape


def unchanged(x: Any, a: Any, b: Any) -> None:
    from ..cmp import Differ

    if a.effects:
        raise Differ("the document is modified")


def project(match: str, queries: Sequence[str], style: str, shape: Any = None, how: str = "text", doc_depth: int = 3, seconds: float = 30.0) -> Result:
    e = env()
    m = refparse.parse(match)
    trees = tuple(refparse.parse(q if q[0] == "$" else "$" + q if q[0] in "[." else "$." + q) for q in queries)

    def args() -> List[Any]:
        if how == "text":
            return list(queries)
        if how == "compiled":
            return [call(e, "compile", q) for q in queries]
        return [call(e, "compile", " | ".join(queries))]

    def actual(doc: Any) -> Any:
        q = call(e, "query", match, doc)
        if style == "RELATIVE" and how == "compiled":
            out = call(q, "select", *args())
        else:
            out = call(q, "select", *args(), projection=I.getattr_(repo("jsonpath.Projection"), style))
        return I.new_list(I.iter_segs(out))

    return product(
        f"{match} select {', '.join(queries)} ({style.lower()}, {how}) of {shape if shape is not None else 'anything'}",
        "the projections of every match",
        lambda: shaped(shape) if shape is not None else json("doc", DOC),
        actual,
        lambda doc: I.call(spec("project.selected"), [doc, m, trees, style]),
        lambda: Cmp(unordered=True, identity=False),
        post=unchanged,
        doc_depth=doc_depth,
        seconds=seconds,
    )


_ = (Callable, Undecided, S, Sym, DictV)

# Documents of any kind, and what is selected by name and by index.
SHORT = [
    ["a"], ["a", "b"], ["a.b"], ["a.b", "a.c"], ["a", "a.b"], ["a.b", "a"], ["[0]"], ["[1,3]"], ["[-1]"], ["[0,-1]"], ["[1]", "[2].a"], ["[1].a", "[1].b"],
    ["a[1]", "a[3]"], ["a[1].b", "a[3].b"], ["['0']"], ["['0']", "['1']"], ["['a','b']"], ["['1'].a", "['1'].b"], ["a['1']", "a['2']"], ["a[1][2]", "a[1][3]"], ["a[0]", "b"], ["['']"],
    ["$.a", "$.a"], ["['a','a']"], ["[1,1]"], ["a[-2]", "a[-1]"],
]
MATCHES = ["$", "$.a", "$.*", "$[0]", "$['a','b']", "$.a.b", "$[1:]", "$['1'][1]", "$[?@.a]", "$['1']", "$[2][3]"]
# Documents of a given shape, and what is selected of them.
SHAPES = [
    [None, None, None],
    [],
    {},
    {"a": None, "b": None},
    {"0": None, "1": None},
    {"a": [None, None], "b": {"c": None}},
    [[None, None], [None]],
    [{"a": None, "b": [None, None]}, None],
    {"a": {"0": None}, "b": [[None, None, None]]},
    {"1": [None, None], "0": None},
    [[], {}, None],
]
WIDE = [
    ["*"], ["[1:]"], ["[::2]"], ["[0:1]"], ["*.a"], ["*[1:]"], ["a[*]", "b"], ["*.*"], ["*['a','b']"], ["*[0,1]"], ["[?@.a]"], ["[?@]"], ["..c"], ["*[?@ == 1]"], ["b[0][1:]", "a"], ["*[*].b"], ["['1','0']"], ["[1].*"], ["*", "*"], ["[0].a", "[0].b[1]", "[1]"],
]


def everything(tier: str) -> List[Any]:
    """The arguments of every obligation."""
    out: List[Any] = []
    short = MATCHES[:6] if tier == "quick" else MATCHES
    for m in short:
        for q in SHORT:
            for s in STYLES:
                out.append((m, q, s))
    for n, shape in enumerate(SHAPES):
        for m in (("$",) if n % 2 else ("$", "$.*")) if tier == "quick" else ("$", "$.*", "$.a", "$[0]", "$..*", "$.*.*", "$['b',0]"):
            for q in WIDE:
                for s in STYLES:
                    out.append((m, q, s, shape))
    for q in SHORT:
        full = [x if x[0] == "$" else "$" + x if x[0] == "[" else "$." + x for x in q]
        for how in ("compiled", "compound"):
            out.append(("$", full, "RELATIVE", None, how))
            if tier != "quick":
                out += [("$.*", full, s, None, how) for s in STYLES]
    return out
