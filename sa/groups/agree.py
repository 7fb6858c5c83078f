"""Two ways of evaluating a query, on the same unknown document."""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import List
from typing import Sequence

from .. import interp as I
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import FCTX
from ..scen import call
from ..scen import env
from ..scen import json
from ..scen import repo
from ..scen import seq
from ..scen import spec
from ..state import DICT
from ..state import JSON
from ..state import LIST
from ..state import STR

DOC = JSON - {STR}
ALL = ("obj", "parts", "path", "parent")


def loc_cmp(aspects: Sequence[str] = ALL) -> Callable[[], Cmp]:
    cls = repo("jsonpath.match.JSONPathMatch")

    def obs(m: Any) -> Any:
        return tuple(I.getattr_(m, a) for a in aspects)

    return lambda: Cmp(observers=((cls, obs),))


def awaited(v: Any) -> Any:
    return I.await_(v)


def async_matches(p: Any, doc: Any, ctx: Any = FCTX) -> Any:
    return seq(awaited(call(p, "finditer_async", doc, filter_context=ctx)), True)


def sync_matches(p: Any, doc: Any, ctx: Any = FCTX) -> Any:
    return seq(call(p, "finditer", doc, filter_context=ctx))


def pair(
    name: str,
    what: str,
    texts: Any,
    left: Callable[[Any, Any], Any],
    right: Callable[[Any, Any], Any],
    aspects: Sequence[str] = ALL,
    env_: Any = None,
    renv: Any = None,
    seconds: float = 30.0,
    doc_depth: int = 3,
    kinds: Any = DOC,
) -> Result:
    a, b = texts if isinstance(texts, tuple) else (texts, texts)
    le = env_ or env()
    re_ = renv or le
    return product(
        name,
        what,
        lambda: json("doc", kinds),
        lambda d: left(call(le, "compile", a), d),
        lambda d: right(call(re_, "compile", b), d),
        loc_cmp(aspects),
        doc_depth=doc_depth,
        seconds=seconds,
    )


def twins(texts: Sequence[str], seconds: float = 30.0, doc_depth: int = 3, env_: Any = None) -> List[Result]:
    out = []
    for t in texts:
        out.append(
            pair(
                f"async {t}",
                f"`{t}`: finditer_async against finditer",
                t,
                async_matches,
                sync_matches,
                seconds=seconds,
                doc_depth=doc_depth,
                env_=env_,
            )
        )
    return out


def twins_all(texts: Sequence[str], seconds: float = 30.0, doc_depth: int = 2) -> List[Result]:
    out = []
    for t in texts:
        out.append(
            pair(
                f"findall_async {t}",
                f"`{t}`: findall_async against findall",
                t,
                lambda p, d: awaited(call(p, "findall_async", d, filter_context=FCTX)),
                lambda p, d: call(p, "findall", d, filter_context=FCTX),
                seconds=seconds,
                doc_depth=doc_depth,
            )
        )
    return out


def getters(texts: Sequence[str], seconds: float = 30.0) -> List[Result]:
    """Documents whose objects and arrays have asynchronous item getters."""

    out = []
    for t in texts:
        # (The documents' own structure is what matters.)
        kinds = JSON - {LIST, DICT} if ".." in t else JSON

        def doc(kinds: Any = kinds) -> Any:
            return I.call(spec("entry.async_doc"), [json("x", kinds), json("y", kinds), json("z", kinds)])

        def query(t: str = t) -> Any:
            return call(env(), "compile", t)

        out.append(
            product(
                f"getter {t}",
                f"`{t}`: finditer_async against finditer, with asynchronous item getters",
                doc,
                lambda d, q=query: async_matches(q(), d),
                lambda d, q=query: sync_matches(q(), d),
                loc_cmp(),
                doc_depth=2,
                seconds=seconds,
            )
        )
    return out


def aliases(pairs: Sequence[Any], seconds: float = 30.0, doc_depth: int = 3, env_: Any = None, renv: Any = None, prefix: str = "alias", aspects: Any = ALL) -> List[Result]:
    out = []
    for a, b in pairs:
        out.append(
            pair(
                f"{prefix} {a} as {b}",
                f"`{a}` against `{b}`",
                (a, b),
                sync_matches,
                sync_matches,
                aspects,
                seconds=seconds,
                doc_depth=doc_depth,
                env_=env_,
                renv=renv,
            )
        )
    return out
