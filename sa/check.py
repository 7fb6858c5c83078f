"""Obligations: what is analysed, and what came of it."""

from __future__ import annotations

import time
import traceback
from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional

from . import dfa
from . import interp as I
from .cmp import Cmp
from .cmp import Differ
from .cmp import outcome
from .cmp import same_outcome
from .state import Budget
from .state import Infeasible
from .state import Undecided
from .values import S
from .values import Raised
from .values import reset_state
from .values import show


class Result:
    def __init__(self, name: str, what: str):
        self.name = name
        self.what = what
        self.partitions = 0
        self.agree = 0
        self.undecided: Dict[str, int] = {}
        self.differ: List[str] = []
        self.functions: set = set()
        self.wall = 0.0

    @property
    def verdict(self) -> str:
        if self.differ:
            return "violated"
        if self.undecided:
            return "partly" if self.agree else "undecided"
        return "shown" if self.agree else "vacuous"

    def __repr__(self) -> str:
        s = f"{self.name}: {self.verdict} ({self.agree}/{self.partitions} partitions, {self.wall:.1f}s)"
        for d in self.differ[:3]:
            s += f"\n    DIFFERS {d}"
        for u, n in sorted(self.undecided.items(), key=lambda p: -p[1])[:3]:
            s += f"\n    undecided x{n}: {u[:300]}"
        return s


def facts(limit: int = 12, traces: Any = None) -> str:
    out: List[str] = []
    for trace in traces if traces is not None else [x.trace for x in S.layers]:
        for g in dict.fromkeys(trace):
            if g[0] == "kind":
                out.append(f"{show(g[1])} is {'/'.join(sorted(g[2]))}")
            elif g[0] == "le0":
                out.append(f"{show(g[1])} <= 0")
            elif g[0] == "ne0":
                out.append(f"{show(g[1])} != 0")
            elif g[0] == "lang":
                w = None
                try:
                    w = dfa.find_word(S.lang(g[1]))
                except Exception:  # noqa: BLE001
                    pass
                out.append(f"{show(g[1])} is a string like {w!r}")
            elif g[0] == "bool":
                out.append(f"{'' if g[2] else 'not '}{show(g[1])}")
    if len(out) > limit:
        out = out[:limit] + ["..."]
    return "; ".join(x if len(x) < 160 else x[:157] + "..." for x in out)


def run_partitions(
    res: Result,
    one: Callable[[], None],
    limit: int = 4000,
    seconds: float = 60.0,
    doc_depth: Any = 3,
    short_ints: int = 0,
) -> Result:
    reset_state()
    S.doc_depth = doc_depth
    S.short_ints = short_ints
    S.heap.trackers = []
    t0 = time.time()
    I.SEEN.clear()
    S.max_steps = 10_000_000
    S.deadline = t0 + seconds
    stamp = S.heap.stamp

    def run() -> None:
        if time.time() - t0 > seconds:
            raise Budget("time")
        if len(res.differ) >= 5:
            return
        mark = S.heap.mark()
        res.partitions += 1
        S.effects = []
        S.copies = []
        try:
            one()
            res.agree += 1
        except Differ as d:
            res.differ.append(f"{d} [when {facts(24, d.traces)}]")
        except Undecided as u:
            k = str(u)
            res.undecided[k] = res.undecided.get(k, 0) + 1
        except (dfa.Unsupported, dfa.TooBig) as u:
            k = f"regular language: {u!r}"
            res.undecided[k] = res.undecided.get(k, 0) + 1
        except Infeasible:
            res.partitions -= 1
            raise
        except RecursionError:
            res.undecided["analysis too deep"] = res.undecided.get("analysis too deep", 0) + 1
        finally:
            S.heap.trackers = []
            del I._stack[:]
            S.heap.rollback(mark, stamp)

    try:
        S.explore(run, limit)
    except Budget as b:
        res.undecided[f"budget: {b}"] = res.undecided.get(f"budget: {b}", 0) + 1
    res.wall = time.time() - t0
    res.functions = {q for m, q in I.SEEN if str(m).startswith("jsonpath")}
    S.layers = []
    return res


def product(
    name: str,
    what: str,
    setup: Callable[[], Any],
    actual: Callable[[Any], Any],
    expected: Callable[[Any], Any],
    cmp: Callable[[], Cmp] = Cmp,
    post: Optional[Callable[[Any, Any, Any], None]] = None,
    limit: int = 4000,
    seconds: float = 60.0,
    doc_depth: Any = 3,
    short_ints: int = 0,
) -> Result:
    """Analyse two programs on the same abstract input; compare their outcomes."""
    res = Result(name, what)

    def one() -> None:
        x = setup()
        a = outcome(lambda: actual(x))
        b = outcome(lambda: expected(x))
        same_outcome(cmp(), a, b)
        if post is not None:
            post(x, a, b)

    return run_partitions(res, one, limit, seconds, doc_depth, short_ints)


_ = (traceback, Raised)


def edits(
    name: str,
    what: str,
    setup: Callable[[], Any],
    actual: Callable[[Any], Any],
    expected: Callable[[Any], Any],
    cmp: Callable[[], Cmp] = Cmp,
    mine: Any = ("doc",),
    limit: int = 6000,
    seconds: float = 60.0,
    doc_depth: Any = 3,
    short_ints: int = 0,
) -> Result:
    """Compare two programs that change their input.

    Both produce a tuple: what came of it, and perhaps a document.  Documents are
    compared as the changes left them; only what is below _mine_ may be changed.
    """
    res = Result(name, what)

    def one() -> None:
        x = setup()
        edited(cmp(), outcome(lambda: actual(x)), outcome(lambda: expected(x)), mine)

    return run_partitions(res, one, limit, seconds, doc_depth, short_ints)


def edited(c: Cmp, a: Any, b: Any, mine: Any = ("doc",), what: str = "result") -> None:
    from . import mutate

    if a.exc is not None or b.exc is not None:
        same_outcome(c, a, b, what)
        return
    for r in mutate.roots(a.effects):
        if r[0] == "sym" and r[1] not in mine:
            c.differ(f"{what}: what was changed", f"a change to {show(r)}", "no change to it")
    if not isinstance(a.value, tuple):
        raise Undecided("an unknown outcome")
    reported(c, a, b, a.value, b.value, what)


def reported(c: Cmp, a: Any, b: Any, x: Any, y: Any, what: str) -> None:
    """Compare reports: a tag and documents, or other values."""
    from . import mutate

    va, vb = [list(v) if isinstance(v, tuple) else I.items_of(v) for v in (x, y)]
    if va[0] == "unspecified" or vb[0] == "unspecified":
        return
    if va[0] == "reports":
        for p, q in zip(I.items_of(va[1]), I.items_of(vb[1])):
            reported(c, a, b, p, q, what)
        for p, q in zip(va[2:], vb[2:]):
            c.same(p, q, "patch")
        return
    if not (isinstance(vb[0], str) and va[0] in vb[0].split(" or ")):
        c.same(va[0], vb[0], what)
    for p, q in zip(va[1:], vb[1:]):
        mutate.same_final(c, p, q, a.effects, b.effects, "document")
