"""Deep equality of JSON values: by induction on the values.

The package's functions of two arguments that call themselves are candidates. Such a
function is deep equality if it agrees with the reference for two values of any kind,
given that it does for their children. Where that has been shown, calls of it are
summarised in other obligations.
"""

from __future__ import annotations

import ast
from typing import Any
from typing import List
from typing import Tuple

from .. import interp as I
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import json
from ..scen import spec
from ..scen import start
from ..values import ClassV
from ..values import FuncV
from ..values import ModuleV


def candidates() -> List[FuncV]:
    start()
    out: List[FuncV] = []
    seen: set = set()
    for name, m in sorted(I._modules.items()):
        if not name.startswith("jsonpath"):
            continue
        for v in list(m.f.values()):
            fs = [v] if isinstance(v, FuncV) else []
            for f in fs:
                if id(f.node) in seen or isinstance(f.node, ast.Lambda) or f.isgen:
                    continue
                seen.add(id(f.node))
                a = f.node.args
                if len(a.posonlyargs + a.args) != 2 or a.vararg or a.kwarg or a.kwonlyargs:
                    continue
                if isinstance(f.node, ast.AsyncFunctionDef):
                    continue
                if any(
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.node.name
                    for n in ast.walk(f.node)
                ):
                    out.append(f)
    return out


def prove(f: FuncV) -> Result:
    ref = spec("ref.json_equal")
    saved = (I.Mode.equalities, I.Mode.proving)
    I.Mode.equalities = {f.node, ref.node}
    I.Mode.proving = True
    try:
        return product(
            f"equality {f.qualname}",
            "deep equality of two unknown JSON values, given that it is for their children",
            lambda: (json("left"), json("right")),
            lambda x: I.truth(I.call(f, list(x))),
            lambda x: I.truth(I.call(ref, list(x))),
            Cmp,
            doc_depth=None,
            seconds=40,
        )
    finally:
        I.Mode.equalities, I.Mode.proving = saved


_done: List[Tuple[Any, Result]] = []


def establish() -> List[Result]:
    """Find the package's deep equality, and use that it is."""
    if not _done:
        I.Mode.equalities = {spec("ref.json_equal").node}
        for f in candidates():
            r = prove(f)
            _done.append((f, r))
        for f, r in _done:
            if r.verdict == "shown":
                I.Mode.equalities.add(f.node)
    return [r for _, r in _done]


_ = (ClassV, ModuleV)
