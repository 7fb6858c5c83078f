"""Evaluation is repeatable: what it leaves behind, and what came before."""

from __future__ import annotations

from typing import Any
from typing import Dict
from typing import List
from typing import Sequence
from typing import Set

from .. import interp as I
from .. import refparse
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..cmp import Differ
from ..freeze import freeze
from ..scen import FCTX
from ..scen import call
from ..scen import env
from ..scen import json
from ..scen import new
from ..scen import repo
from ..scen import seq
from ..scen import spec
from ..state import JSON
from ..state import MISSING
from ..state import STR
from ..state import Undecided
from ..values import S
from ..values import IterV
from ..values import Later
from ..values import Raised
from .agree import awaited
from .projections import shaped
from .whole import node_cmp

DOC = JSON - {STR}
# What the query has been used on before.
BEFORE = [
    {"a": [{"a": 1, "b": [1, 2]}, {"b": "x", "a": "x"}], "b": {"c": 3, "a": "ab"}, "x": 5, "p": "a.*", "c": True},
    [{"a": 1, "b": 2, "c": 3}, [1, 2], "x", {"a": {"b": 1}, "x": 1}],
    {"0": {"a": "x"}, "a": {"a": 2, "b": {"a": 1}}, "b": False},
]
CONTEXTS = [{"x": 1}, {"x": [1, "x"]}, {}]
INPUTS = {"doc", "filter_context"}


class Left:
    """What evaluations leave behind in what existed before them."""

    def __init__(self) -> None:
        self.values: Dict[Any, Any] = {}
        self.bad: Set[str] = set()

    def begin(self, base: int) -> None:
        self.base = base
        self.stamp = S.heap.stamp
        self.at = len(S.heap.log)
        self.neff = len(S.effects)

    def end(self, what: str) -> None:
        for e in S.effects[self.neff :]:
            raise Differ(f"{what} changes its input ({e[0]})")
        first: Dict[Any, Any] = {}
        rest: Dict[Any, List[Any]] = {}
        for o, field, old in S.heap.log[self.at :]:
            k = (id(o), field)
            if o.stamp > self.stamp or isinstance(o, IterV):
                continue
            if k in first:
                rest[k].append(old)
            else:
                first[k] = (o, field, old)
                rest[k] = []
        for k, (o, field, old) in first.items():
            name = getattr(getattr(o, "cls", o), "name", type(o).__name__)
            where = f"{name}.{field}"
            before = frozen(old, where)
            # What others may see there on the way counts, too.
            for now in (*rest[k], o.f.get(field, MISSING)):
                then = frozen(now, where)
                if then == before:
                    continue
                if mentions(then):
                    raise Differ(f"{what} leaves something of its input in {where}")
                # The same whatever the input is?
                key = (name, o.stamp - self.base if o.stamp > self.base else o.stamp, field)
                if self.values.setdefault(key, then) != then:
                    raise Differ(f"{what} leaves something in {where} that depends on its input")


def frozen(v: Any, where: str) -> Any:
    if type(v) is Later:
        raise Undecided(f"what a loop leaves in {where}")
    return freeze(v) if v is not MISSING and v is not None else None


def mentions(t: Any) -> bool:
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "sym" and t[1] in INPUTS:
            return True
        return any(mentions(x) for x in t)
    return False


def found(p: Any, doc: Any, ctx: Any, how: str) -> Any:
    if how == "finditer_async":
        return seq(awaited(call(p, how, doc, filter_context=ctx)), True)
    return seq(call(p, how, doc, filter_context=ctx))


def drained(p: Any, doc: Any, ctx: Any, how: str) -> Any:
    try:
        return found(p, doc, ctx, how)
    except Raised as e:
        return e.exc


def repeated(texts: Sequence[str], seconds: float = 30.0, doc_depth: int = 2, caching: bool = True, history: bool = True, how: str = "finditer") -> List[Result]:
    """A query used before, on other documents."""
    e = env() if caching else env(filter_caching=False)
    out = []
    for text in texts:
        tree = refparse.parse(text)
        left = Left()

        def actual(doc: Any, text: str = text, left: Left = left) -> Any:
            base = S.heap.stamp
            p = call(e, "compile", text)
            if history:
                for shape, ctx in zip(BEFORE, CONTEXTS):
                    d, c = shaped(shape), shaped(ctx)
                    left.begin(base)
                    drained(p, d, c, how)
                    left.end("an evaluation")
            left.begin(base)
            try:
                return found(p, doc, FCTX, how)
            finally:
                left.end("the evaluation")

        out.append(
            product(
                f"{'used before' if history else 'first use'}, caching {'on' if caching else 'off'}{'' if how == 'finditer' else ', ' + how}: {text}",
                "the result on any document, and what is left in anything that isn't the evaluation's own",
                lambda: json("doc", DOC),
                actual,
                lambda doc, tree=tree: I.call(spec("entry.compound"), [tree, doc, FCTX]),
                node_cmp(("obj",)),
                doc_depth=doc_depth,
                seconds=seconds,
            )
        )
    return out


def recompiled(pairs: Sequence[Any], seconds: float = 20.0) -> List[Result]:
    """Compiling something else, perhaps in vain, before."""
    cls = repo("jsonpath.env.JSONPathEnvironment")
    out = []
    for first, text in pairs:
        tree = refparse.parse(text)

        def actual(doc: Any, first: str = first, text: str = text) -> Any:
            e = I.call(cls, [], {})
            a = call(e, "compile", text)
            try:
                call(e, "compile", first)
            except Raised:
                pass
            b = call(e, "compile", text)
            if not I.eq(a, b) or I.eq(a, b) is None:
                raise Differ("compiling the same text again doesn't give an equal query")
            fresh = call(I.call(cls, [], {}), "compile", text)
            Cmp().same(I.pylib.str_(b), I.pylib.str_(fresh), "text of the query")
            return seq(call(b, "finditer", doc, filter_context=FCTX))

        out.append(
            product(
                f"compiling {text!r} again, after {first!r}",
                "an equal query, with the same results on any document",
                lambda: json("doc", DOC),
                actual,
                lambda doc, tree=tree: I.call(spec("entry.compound"), [tree, doc, FCTX]),
                node_cmp(("obj",)),
                seconds=seconds,
            )
        )
    return out


_ = (new, repo)

CACHED = [
    "$[?@.a==$.b]", "$[?$.b]", "$[?!$.b]", "$[?$.a==$.b]", "$[?count($.*)>1 && @.a]", "$[?_.x==@.a]", "$[?_.x]", "$[?#=='a' && $.b]", "$[?length($.a)==length(@)]", "$[?value($..a)==@.b]",
    "$[?count(@[?$.x])==1]", "$[?@.a in $.b]", "$[?match(@.a,$.p)]", "$[?($.a || @.b) && @.c]", "$[?@.a && !($.b==1)]", "$[?1==1]", "$[?1==1 && @.a]", "$[?count(@.*)==count($.*)]", "$[?count(@.*)==2]", "$[?value(@.a)==1]", "$[?length(#)==1]", "$[?#==$.b]", "$[?#==_.x]", "$[?@.a==1 || $.b==1]", "$[?$[?@.a]]", "$[?$[?@.a==$.b]]", "$[?@[?#=='a'] && $.b]", "$[?count($[?@.a])==1]", "$.a[?@.b==$.x][?@.c==$.x]", "$[?@.a==$.b,?@.b==$.a]", "$[*][?@==$.x]", "$[*][?#==_.x]", "$[?_.x && @[?@.a==_.x]]", "$[?@.a =~ /x/ && $.b]", "$[?$.b =~ /x/]", "$[?$.b in ['x', 1]]", "$[?$.b==undefined]", "$[?_.x==undefined && @.a]", "^[?@.a==$.b]", "^[?$.a]", "$[?'x' in _.x]", "$[?value(@[?@==$.x])==1]", "$[?length(value($.*))==2]", "$[?!(!$.b)]", "$[?$.a<@.b]", "$[?not $.a and #==1]", "$.a | $[?@.a==$.b]", "$[?@==$]", "$[?@.* && $.*]", "$[?$['a','b']]", "$[?count($['a','a'])==2]",
]
ASYNC = ["$[?@.a==$.b]", "$[?count($.*)>1 && @.a]", "$[?_.x==@.a]", "$[?#=='a' && $.b]", "$[?$[?@.a]]", "$.a[?@.b==$.x][?@.c==$.x]", "$[*][?#==_.x]", "$..[?@.a in $.b]", "$[?value(@[?@==$.x])==1]", "^[?@.a==$.b]", "$.a | $[?@.a==$.b]"]
SLOW = ["$[?$[?@.a==$.b]]", "$[?value($..a)==@.b]", "$[?@.a==$.b,?@.b==$.a]"]
# Every place for what depends on the node, beside something that doesn't.
STABLE, VARYING = ("'x'", "$.a", "_.x"), ("@.a", "#")
MIXED = [
    f"$[?{form.format(a, b)}]"
    for form in ("{0}=={1}", "{0}<{1}", "{0} in {1}", "{0} contains {1}", "match({0},{1})", "search({0},{1})", "{0}||{1}==1", "{0}==1||{1}", "{0}==1&&{1}==2", "!({0}=={1})", "length({0})==length({1})")
    for s in STABLE
    for v in VARYING
    for a, b in ((s, v), (v, s))
    if not (form.startswith(("match", "search", "{0}||", "{0}==1||", "{0}==1&&")) and "#" in (a, b)) and not ("||" in form and s == "'x'") and not (form.startswith("{0}==1&&") and s == "'x'")
]
PAIRS = [
    (a, b)
    for a in ("$.a", "$..*", "$[?@.a==$.b]", "$[", "$[?@.a==", "$['a", "$[?count(1)]", "$[1:2:3,'b']", "$[?@.a =~ /x/i]", "$.a | $.b", "$[?(@.a]", "$[01]")
    for b in ("$.a[0]", "$[?@.a==1 && !@.b]", "$['x\\n', 1:]", "$..[?count(@.*)>1]", "$.a & $[*]", "$[?@.a =~ /y/]")
]
