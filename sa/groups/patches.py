"""JSON Patch."""

from __future__ import annotations

from typing import Any
from typing import List
from typing import Sequence
from typing import Tuple

from .. import dfa
from .. import interp as I
from .. import loops
from ..check import Result
from ..check import edited
from ..check import edits
from ..check import product
from ..check import run_partitions
from ..cmp import Cmp
from ..cmp import outcome
from ..scen import call
from ..scen import env
from ..scen import json
from ..scen import repo
from ..scen import spec
from ..scen import string
from ..values import Item
from ..values import S
from ..values import Sym
from ..values import TupV
from .pointers import DOC
from .pointers import LIMIT
from .pointers import NO_BACKSLASH
from .pointers import PLAIN_ASCII

WITH_VALUE = ("add", "replace", "test", "addne", "addap")
WITH_FROM = ("move", "copy")
STANDARD = ("add", "remove", "replace", "move", "copy", "test")


def path(n: Any, name: str) -> TupV:
    """Unknown tokens, or given ones.

    A last token may be anything; what negative or marked tokens mean on the way is an
    extension of JSON Pointer.
    """
    if isinstance(n, tuple):
        return TupV(tuple(Item(x) for x in n))
    langs = [PLAIN_ASCII] * (n - 1) + [NO_BACKSLASH]
    return TupV(tuple(Item(string(f"{name}{i + 1}", langs[i])) for i in range(n)))


def op(name: str, n: int, m: int = 0, at: str = "") -> Tuple:
    p = path(n, f"t{at}_")
    if name in WITH_FROM:
        return (name, p, path(m, f"s{at}_"))
    if name in WITH_VALUE:
        return (name, p, json(f"value{at}"))
    return (name, p)


def described(shape: Sequence[Tuple]) -> str:
    return ", ".join(
        f"{s[0]} {s[2]}->{s[1]}" if s[0] in WITH_FROM else f"{s[0]} {s[1]}" for s in shape
    )


def ops(shape: Sequence[Tuple]) -> Tuple:
    return tuple(op(s[0], s[1], s[2] if len(s) > 2 else 0, str(i + 1) if len(shape) > 1 else "") for i, s in enumerate(shape))


def patch() -> Any:
    return I.call(repo("jsonpath.patch.JSONPatch"), [])


WAYS = {
    "built": lambda o: I.call(spec("patch.build"), [patch(), o]),
    "document": lambda o: I.call(repo("jsonpath.patch.JSONPatch"), [I.call(spec("patch.document"), [o])]),
    "printed": lambda o: I.call(
        repo("jsonpath.patch.JSONPatch"),
        [I.call(I.getattr_(I.call(spec("patch.build"), [patch(), o]), "asdicts"), [])],
    ),
}


def applied(shapes: Sequence[Sequence[Tuple]], way: str = "document", identity: bool = False, seconds: float = 40.0, doc_depth: int = 3) -> List[Result]:
    out = []
    for shape in shapes:
        out.append(
            edits(
                f"apply ({way}{', fresh values' if identity else ''}) {described(shape)}",
                "the document, or the kind of failure; tokens per pointer are given, and unknown",
                lambda shape=shape: (json("doc", DOC), ops(shape)),
                lambda x: I.call(spec("patch.applied"), [WAYS[way](x[1]), x[0]]),
                lambda x: I.call(spec("patch.apply"), list(x)),
                lambda: Cmp(identity=identity),
                seconds=seconds,
                doc_depth=doc_depth,
                short_ints=LIMIT,
            )
        )
    return out


def function(shapes: Sequence[Sequence[Tuple]], seconds: float = 40.0) -> List[Result]:
    """The module's function, with and without escapes."""
    out = []
    for shape in shapes:
        for esc in (True, False):
            out.append(
                edits(
                    f"jsonpath.patch.apply(…, unicode_escape={esc}) {described(shape)}",
                    "the document, or the kind of failure",
                    lambda shape=shape: (json("doc", DOC), ops(shape)),
                    lambda x, esc=esc: I.call(
                        spec("patch.applied_function"),
                        [repo("jsonpath.patch.apply"), I.call(spec("patch.document"), [x[1]]), x[0], esc],
                    ),
                    lambda x: I.call(spec("patch.apply"), list(x)),
                    lambda: Cmp(identity=False),
                    seconds=seconds,
                    short_ints=LIMIT,
                )
            )
    return out


def equals(n: int) -> Tuple:
    """A document and copies of it."""
    doc = json("doc", DOC)
    return (doc, *(Sym(("fn", "deepcopy", S.kinds(doc.term), doc.term, f"in{i}")) for i in range(1, n)))


def loader() -> Any:
    return repo("jsonpath.patch.JSONPatch")


REPORTS = {
    "document": lambda o, docs: I.call(spec("patch.reports"), [loader(), o, docs]),
    "built": lambda o, docs: I.call(spec("patch.built_reports"), [patch(), o, docs]),
    "printed": lambda o, docs: I.call(
        spec("patch.reports_of"), [WAYS["printed"](o), o, docs]
    ),
}


def faithful(shapes: Sequence[Sequence[Tuple]], way: str = "document", n: int = 2, seconds: float = 40.0, doc_depth: int = 3) -> List[Result]:
    """A patch applied _n_ times, and what it prints before and after."""
    out = []
    for shape in shapes:
        out.append(
            edits(
                f"use {n} times ({way}) {described(shape)}",
                "results for equal documents that share nothing but those documents; what the patch "
                "prints before and after, and the caller's list",
                lambda shape=shape: (ops(shape), equals(n)),
                lambda x: REPORTS[way](x[0], x[1]),
                lambda x: I.call(spec("patch.expected_reports"), list(x)),
                lambda: Cmp(identity=True, unordered=True),
                seconds=seconds,
                doc_depth=doc_depth,
                short_ints=LIMIT,
            )
        )
    return out


# --- edits at matches -----------------------------------------------------------------


def _patched(name: str, m: Any, d: Any, *args: Any) -> Any:
    p = call(patch(), name, call(m, "pointer"), *args)
    return I.call(spec("patch.applied"), [p, d])


EDITS = {
    "test": (
        lambda m, d, v: _patched("test", m, d, I.getattr_(m, "obj")),
        lambda m, d, v: ("document", d),
    ),
    "replace": (
        lambda m, d, v: _patched("replace", m, d, v),
        lambda m, d, v: I.call(spec("patch.replaced_at"), [d, I.getattr_(m, "parts"), v]),
    ),
    "remove": (
        lambda m, d, v: _patched("remove", m, d),
        lambda m, d, v: I.call(spec("patch.removed_at"), [d, I.getattr_(m, "parts")]),
    ),
}


def at_matches(texts: Sequence[str], which: Sequence[str] = tuple(EDITS), seconds: float = 40.0) -> List[Result]:
    """Edits through the pointer of every match."""
    e = env()
    out = []
    for t in texts:
        for w in which:
            res = Result(
                f"{w} at matches of {t}",
                f"`{w}` with the pointer of every match of `{t}` is the same edit at the match's location",
            )
            got, want = EDITS[w]

            def one(t: str = t, got: Any = got, want: Any = want) -> None:
                d, v = json("doc", DOC), json("value")
                segs = I.iter_segs(call(call(e, "compile", t), "finditer", d))

                def body(m: Any) -> Any:
                    a = outcome(lambda: got(m, d, v))
                    b = outcome(lambda: want(m, d, v))
                    edited(Cmp(identity=False), a, b)
                    return I.NORMAL

                loops.run(segs, body, None)

            out.append(run_partitions(res, one, 6000, seconds, 2 if ".." in t else 3))
    return out


_ = (dfa, product)
