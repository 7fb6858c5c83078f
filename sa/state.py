"""Abstract states: facts about terms, and the partitioning of traces.

A *term* is a nested tuple that says where an abstract value comes from, for
example `("child", ("sym", "DOC"), ("key", ...))`.  A *fact* restricts a term:
the JSON kinds it may have, a linear inequality, the regular language it belongs
to, or the truth of an uninterpreted atom.  When the analysed code tests something
the facts don't determine, the trace is partitioned: one state assumes the test
holds, the other that it doesn't.

Facts live in layers.  Layer 0 holds facts about the inputs of the analysed
function; every loop over an unknown collection adds a layer with facts about its
generic element.
"""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import Dict
from typing import FrozenSet
from typing import List
from typing import Optional
from typing import Tuple

from . import dfa

Term = Any

NULL, BOOL, INT, FLOAT, STR, LIST, DICT = (
    "null",
    "bool",
    "int",
    "float",
    "str",
    "list",
    "dict",
)
JSON: FrozenSet[str] = frozenset([NULL, BOOL, INT, FLOAT, STR, LIST, DICT])
KSTR = frozenset([STR])
KINT = frozenset([INT])
KBOOL = frozenset([BOOL])
KOPAQUE = frozenset(["opaque"])


class Undecided(Exception):
    """The analysis can't decide this; never a violation."""


class Infeasible(Exception):
    """The facts contradict each other."""


class Dead(Infeasible):
    """The facts of a layer below contradict each other."""

    def __init__(self, depth: int):
        super().__init__()
        self.depth = depth


class Endless(Undecided):
    """A loop goes round hundreds of times whatever the unknown inputs are."""


class Budget(Exception):
    """The analysis of one obligation took too long."""


# --- terms ---------------------------------------------------------------------------

_level_cache: Dict[Term, int] = {}


def level(t: Term) -> int:
    """The layer of the innermost loop variable in _t_ (0 if there is none)."""
    if not isinstance(t, (tuple, frozenset)):
        return getattr(t, "_level", 0)
    try:
        r = _level_cache.get(t)
    except TypeError:
        return 0
    if r is None:
        if len(t) == 2 and isinstance(t, tuple) and t[0] == "var":
            r = t[1]
        else:
            r = 0
            for x in t:
                n = level(x)
                if n > r:
                    r = n
        _level_cache[t] = r
    return r


_origins: Dict[Term, Term] = {}


def origin(t: Term) -> Term:
    """_t_ with copies replaced by what they were made of.

    Copies are different objects with the same contents: facts about how a document was
    at first are shared.
    """
    if not isinstance(t, tuple) or not t:
        return t
    try:
        r = _origins.get(t)
    except TypeError:
        return t
    if r is None:
        if t[0] == "fn" and t[1] == "deepcopy":
            r = origin(t[3])
        else:
            new = tuple(origin(x) if isinstance(x, tuple) else x for x in t)
            r = t if new == t else new
        _origins[t] = r
    return r


def sym(name: str, kinds: FrozenSet[str] = JSON) -> Term:
    return ("sym", name, kinds)


_INT_OPS = {"var", "lin", "len", "count", "idx", "nchild", "indices", "int"}
_STR_OPS = {"cat", "key", "strof", "str", "char", "hom"}


SCALARS = frozenset([NULL, BOOL, INT, FLOAT, STR])

_depths: Dict[Term, int] = {}


def doc_depth(t: Term) -> int:
    """How many steps below an input document is _t_?"""
    n = 0
    while t[0] == "child":
        n += 1
        t = t[1]
    return n


def default_kinds(t: Term) -> FrozenSet[str]:
    op = t[0]
    if op == "sym":
        return t[2]
    if op in _INT_OPS:
        return KINT
    if op in _STR_OPS:
        return KSTR
    if op == "fn":
        return t[2]
    if op == "first":
        return KINT
    return JSON


# Linear forms: ("lin", const, ((term, coef), ...)) with terms sorted.


def lin(t: Any) -> Tuple[int, Tuple[Tuple[Term, int], ...]]:
    if isinstance(t, int):
        return (int(t), ())
    if isinstance(t, tuple) and t and t[0] == "lin":
        return (t[1], t[2])
    return (0, ((t, 1),))


def mklin(const: int, items: Dict[Term, int]) -> Any:
    its = tuple(sorted(((k, v) for k, v in items.items() if v), key=lambda p: repr(p[0])))
    if not its:
        return const
    if const == 0 and len(its) == 1 and its[0][1] == 1:
        return its[0][0]
    return ("lin", const, its)


def ladd(a: Any, b: Any, k: int = 1) -> Any:
    ca, ia = lin(a)
    cb, ib = lin(b)
    d = dict(ia)
    for t, c in ib:
        d[t] = d.get(t, 0) + c * k
    return mklin(ca + cb * k, d)


def lmul(a: Any, k: int) -> Any:
    c, i = lin(a)
    return mklin(c * k, {t: v * k for t, v in i})


# --- layers --------------------------------------------------------------------------


class Layer:
    def __init__(self, plan: List[List[int]]):
        self.plan = plan
        self.pos = 0
        self.kinds: Dict[Term, FrozenSet[str]] = {}
        self.lins: List[Any] = []
        self.neqs: List[Any] = []
        self.langs: Dict[Term, Any] = {}
        self.bools: Dict[Term, bool] = {}
        self.trace: List[Tuple] = []
        self.exists: List[Any] = []
        self.twins: Dict[Term, List[Term]] = {}


class Heap:
    """Fields of abstract objects, with an undo log and access trackers."""

    def __init__(self) -> None:
        self.log: List[Tuple] = []
        self.stamp = 0
        self.trackers: List[Any] = []

    def new_stamp(self) -> int:
        self.stamp += 1
        return self.stamp

    def mark(self) -> int:
        return len(self.log)

    def rollback(self, mark: int, stamp: int) -> None:
        """Undo the writes since _mark_ to objects that existed at _stamp_."""
        while len(self.log) > mark:
            o, key, old = self.log.pop()
            if o.stamp > stamp:
                continue
            if old is MISSING:
                o.f.pop(key, None)
            else:
                o.f[key] = old


class _Missing:
    def __repr__(self) -> str:
        return "<missing>"


MISSING = _Missing()


class State:
    def __init__(self) -> None:
        self.layers: List[Layer] = []
        self.heap = Heap()
        self.steps = 0
        self.deadline = float("inf")
        self.max_steps = 3_000_000
        self.effects: List[Tuple] = []
        self.copies: List[Term] = []
        self.rec_ids: Dict[Any, int] = {}
        self.next_rec = 0
        self.notes: Dict[str, int] = {}
        self.epoch = 0
        # Documents nested more deeply than this aren't considered (None: all are).
        self.doc_depth: Any = None
        # Assume that integers read from text are at most this (in magnitude).
        self.short_ints: Any = 0

    # -- partitioning

    def explore(
        self, run: Callable[[], None], limit: int = 20000, reset: Optional[Callable[[], None]] = None
    ) -> int:
        """Run _run_ once for every part of the trace partition of a new layer.

        If what lies below gets partitioned on the way, we start again in the chosen part.
        """
        plan: List[List[int]] = []
        n = 0
        below = [x.pos for x in self.layers]
        while True:
            layer = Layer(plan)
            self.layers.append(layer)
            depth = len(self.layers)
            try:
                run()
            except Dead as e:
                if e.depth < depth - 1:
                    raise
            except Infeasible:
                pass
            finally:
                del self.layers[depth - 1 :]
            n += 1
            if n > limit:
                raise Budget("too many partitions")
            now = [x.pos for x in self.layers]
            if now != below:
                below = now
                if plan:
                    plan = []
                    if reset is not None:
                        reset()
                    continue
            while plan and plan[-1][0] + 1 >= plan[-1][1]:
                plan.pop()
            if not plan:
                return n
            plan[-1][0] += 1

    @property
    def depth(self) -> int:
        return len(self.layers) - 1

    def fork(self, lvl: int, n: int) -> int:
        if n == 1:
            return 0
        layer = self.layers[min(lvl, len(self.layers) - 1)]
        if layer.pos < len(layer.plan):
            c = layer.plan[layer.pos]
            if c[1] != n:
                raise Undecided("internal: unstable partition")
        else:
            c = [0, n]
            layer.plan.append(c)
        layer.pos += 1
        return c[0]

    def _layer(self, lvl: int) -> Layer:
        return self.layers[min(lvl, len(self.layers) - 1)]

    # -- kinds

    def kinds(self, t: Term) -> FrozenSet[str]:
        t = origin(t)
        ks = default_kinds(t)
        if t[0] == "child" and self.doc_depth is not None and doc_depth(t) >= self.doc_depth:
            ks = ks & SCALARS
        for layer in self.layers:
            k = layer.kinds.get(t)
            if k is not None:
                ks = ks & k
        return ks

    def assume_kind(self, t: Term, ks: FrozenSet[str]) -> None:
        t = self.rep(t)
        now = self.kinds(t)
        new = now & ks
        if not new:
            raise Infeasible
        if new != now:
            layer = self._layer(level(t))
            layer.kinds[t] = new
            layer.trace.append(("kind", t, new))

    def is_kind(self, t: Term, ks: FrozenSet[str]) -> bool:
        now = self.kinds(t)
        yes, no = now & ks, now - ks
        if not no:
            return True
        if not yes:
            return False
        if self.fork(level(t), 2) == 0:
            self.assume_kind(t, yes)
            return True
        self.assume_kind(t, no)
        return False

    # -- linear integer facts

    def _constraints(self) -> List[Any]:
        out = []
        for layer in self.layers:
            out.extend(layer.lins)
        return out

    def lin_feasible(self, extra: List[Any]) -> bool:
        cons = [lin(c) for c in extra]
        allc = [lin(c) for c in self._constraints()]
        # Only constraints connected to _extra_ matter.
        terms = {t for c in cons for t, _ in c[1]}
        changed = True
        used: List[Any] = list(cons)
        rest = allc
        while changed:
            changed = False
            nrest = []
            for c in rest:
                if any(t in terms for t, _ in c[1]) or not c[1]:
                    used.append(c)
                    terms |= {t for t, _ in c[1]}
                    changed = True
                else:
                    nrest.append(c)
            rest = nrest
        for t in terms:
            if t[0] in ("len", "count"):
                used.append((0, ((t, -1),)))
            elif t[0] == "var":
                used.append((0, ((t, -1),)))
            elif t[0] == "int":
                used.extend(self._text_bounds(t))
        return _fm(used)

    def _text_bounds(self, t: Term) -> List[Any]:
        """Bounds on an integer from what its text may be."""
        r = self.lang(t[1])
        if r == dfa.ALL:
            return []
        out = []
        if dfa.subset(r, _POSITIVE):
            out.append((1, ((t, -1),)))
        elif dfa.subset(r, _UNSIGNED):
            out.append((0, ((t, -1),)))
        elif dfa.subset(r, _NEGATIVE):
            out.append((1, ((t, 1),)))
        if dfa.subset(r, _ZERO):
            out.append((0, ((t, 1),)))
        return out

    def lin_implied(self, e: Any) -> bool:
        """Do the facts imply e <= 0?"""
        c, i = lin(e)
        if not i:
            return c <= 0
        return not self.lin_feasible([ladd(1, lmul(e, -1))])  # e >= 1 infeasible

    def assume_le0(self, e: Any, silent: bool = False) -> None:
        """Record a fact; a silent one follows from others and is no condition of its own."""
        c, i = lin(e)
        if not i:
            if c > 0:
                raise Infeasible
            return
        if not self.lin_feasible([e]):
            raise Infeasible
        layer = self._layer(level(e))
        if e in layer.lins:
            return
        layer.lins.append(e)
        if not silent:
            layer.trace.append(("le0", e))
        self._check_neqs()

    def le0(self, e: Any) -> bool:
        """Decide e <= 0."""
        e = self._gcd_le(e)
        c, i = lin(e)
        if not i:
            return c <= 0
        if self.short_ints:
            self._bound_ints(i)
        if self.lin_implied(e):
            return True
        if not self.lin_feasible([e]):
            return False
        if self._split_signs(i):
            return self.le0(e)
        if self.fork(level(e), 2) == 0:
            self.assume_le0(e)
            return True
        self.assume_le0(ladd(1, lmul(e, -1)))
        return False

    def _split_signs(self, i: Any) -> bool:
        """Decide the signs of integers that are read from unknown text."""
        for t, _ in i:
            if isinstance(t, tuple) and t[0] == "int":
                r = self.lang(t[1])
                if r != dfa.ALL and not dfa.is_empty(dfa.conj(r, _UNSIGNED)) and not dfa.subset(r, _UNSIGNED):
                    self.in_lang(t[1], _UNSIGNED)
                    return True
        return False

    def _bound_ints(self, i: Any) -> None:
        for t, _ in i:
            if isinstance(t, tuple) and t[0] in ("int", "len"):
                for b in (ladd(t, -self.short_ints), ladd(lmul(t, -1), -self.short_ints)):
                    if not self.lin_implied(b):
                        self.assume_le0(b, True)

    def _gcd_le(self, e: Any) -> Any:
        from math import gcd

        c, i = lin(e)
        if not i:
            return e
        g = 0
        for _, k in i:
            g = gcd(g, abs(k))
        if g > 1:
            # sum(k t) <= -c  =>  sum(k/g t) <= floor(-c/g)
            return mklin(-((-c) // g), {t: k // g for t, k in i})
        return e

    def eq0_implied(self, e: Any) -> bool:
        c, i = lin(e)
        if not i:
            return c == 0
        return self.lin_implied(e) and self.lin_implied(lmul(e, -1))

    def eq0(self, e: Any) -> bool:
        """Decide e == 0."""
        c, i = lin(e)
        if not i:
            return c == 0
        if self.eq0_implied(e):
            return True
        neg = lmul(e, -1)
        if not self.lin_feasible([e, neg]):
            return False
        for layer in self.layers:
            if e in layer.neqs or neg in layer.neqs:
                return False
        if self._split_signs(i):
            return self.eq0(e)
        if self.fork(level(e), 2) == 0:
            self.assume_eq0(e)
            return True
        self.assume_ne0(e)
        return False

    def assume_eq0(self, e: Any) -> None:
        self.assume_le0(e)
        self.assume_le0(lmul(e, -1))

    def assume_ne0(self, e: Any) -> None:
        layer = self._layer(level(e))
        layer.neqs.append(e)
        layer.trace.append(("ne0", e))
        self._check_neqs()

    def _check_neqs(self) -> None:
        for layer in self.layers:
            for e in layer.neqs:
                if self.eq0_implied(e):
                    raise Infeasible
                # e != 0 and e <= 0  =>  e <= -1
                if self.lin_implied(e):
                    t = ladd(e, 1)
                    if not self.lin_implied(t):
                        if not self.lin_feasible([t]):
                            raise Infeasible
                        self._layer(level(t)).lins.append(t)
                else:
                    n = lmul(e, -1)
                    if self.lin_implied(n):
                        t = ladd(n, 1)
                        if not self.lin_implied(t):
                            if not self.lin_feasible([t]):
                                raise Infeasible
                            self._layer(level(t)).lins.append(t)

    # -- strings

    def twins(self, t: Term) -> List[Term]:
        """Strings known to be equal to _t_."""
        out = [t]
        if any(x.twins for x in self.layers):
            for u in out:
                for layer in self.layers:
                    out += [v for v in layer.twins.get(u, ()) if v not in out]
        return out

    def lang(self, t: Term) -> Any:
        t = self.rep(t)
        ts = self.twins(t)
        r = self._lang(t)
        for u in ts[1:]:
            r = dfa.conj(r, self._lang(u))
        return r

    def _lang(self, t: Term) -> Any:
        r = dfa.ALL
        if t[0] == "sym" and len(t) > 3:
            r = t[3]
        elif t[0] == "strof":
            r = _INT_TEXT
            up, down = lmul(t[1], -1), t[1]
            if self.lin_implied(up):
                r = dfa.conj(r, _POSITIVE if self.lin_implied(ladd(1, up)) else _UNSIGNED)
            if self.lin_implied(down):
                r = dfa.conj(r, _NEGATIVE if self.lin_implied(ladd(1, down)) else _NOT_POSITIVE)
        elif t[0] in ("cat", "hom"):
            from . import strings

            r = strings.lang_of(t, self.lang)
        elif t[0] == "fn" and len(t) == 4 and t[1] in _TRIM:
            r = _TRIM[t[1]][1]
            # What doesn't occur in a text doesn't occur in a part of it.
            whole = self.lang(t[3])
            for c in "/\\":
                has = dfa.seq(dfa.ALL, dfa.lit(c), dfa.ALL)
                if dfa.is_empty(dfa.conj(whole, has)):
                    r = dfa.conj(r, dfa.neg(has))
        elif t[0] == "fn" and t[1] in ("onelined", "line", "jsonerror"):
            from .pylib import NO_BREAKS
            from .pylib import ONLY_BREAKS

            r = NO_BREAKS
            if t[1] == "onelined" and dfa.is_empty(dfa.conj(self.lang(t[3]), ONLY_BREAKS)):
                r = dfa.conj(r, dfa.neg(dfa.EPS))
        for layer in self.layers:
            k = layer.langs.get(t)
            if k is not None:
                r = dfa.conj(r, k)
        return r

    def assume_lang(self, t: Term, r: Any) -> None:
        t = self.rep(t)
        if dfa.is_empty(dfa.conj(self.lang(t), r)):
            raise Infeasible
        layer = self._layer(level(t))
        old = layer.langs.get(t, dfa.ALL)
        layer.langs[t] = dfa.conj(old, r)
        layer.trace.append(("lang", t, r))

    def in_lang(self, t: Term, r: Any) -> bool:
        now = self.lang(t)
        if dfa.is_empty(dfa.conj(now, r)):
            return False
        if dfa.is_empty(dfa.conj(now, dfa.neg(r))):
            return True
        if t[0] in ("cat", "hom") and self.rep(t) == t:
            from . import strings

            v = strings.split_lang(t, r)
            if v is not None:
                return v
        if t[0] == "fn" and len(t) == 4 and t[1] in _TRIM and self.rep(t) == t:
            before, form, after = _TRIM[t[1]]
            return self.in_lang(t[3], dfa.seq(before, dfa.conj(form, r), after))
        if t[0] == "strof":
            # Distinguish integers rather than their texts, where it's enough.
            for part, e in ((_JUST_ZERO, None), (_UNSIGNED, lmul(t[1], -1)), (_POSITIVE, ladd(1, t[1], -1))):
                x = dfa.conj(now, part)
                y = dfa.conj(now, dfa.neg(part))
                yes, no = dfa.subset(x, r), dfa.subset(y, r)
                if (yes or dfa.is_empty(dfa.conj(x, r))) and (no or dfa.is_empty(dfa.conj(y, r))):
                    return (yes if (self.eq0(t[1]) if e is None else self.le0(e)) else no)
        if self.fork(level(t), 2) == 0:
            self.assume_lang(t, r)
            return True
        self.assume_lang(t, dfa.neg(r))
        return False

    def str_const(self, t: Term) -> Any:
        """The only word _t_ can be, if there is one."""
        r = self.lang(t)
        if r == dfa.ALL:
            return None
        ws = dfa.words(r, 2, 40)
        if len(ws) == 1 and dfa.equivalent(r, dfa.lit(ws[0])):
            return ws[0]
        return None

    # -- uninterpreted atoms

    def truth(self, atom: Term) -> Any:
        atom = origin(atom)
        for layer in self.layers:
            v = layer.bools.get(atom)
            if v is not None:
                return v
        return None

    def assume(self, atom: Term, val: bool) -> None:
        atom = origin(atom)
        v = self.truth(atom)
        if v is not None:
            if v != val:
                raise Infeasible
            return
        layer = self._layer(level(atom))
        layer.bools[atom] = val
        layer.trace.append(("bool", atom, val))
        if val:
            if atom[0] == "eq" and self.kinds(atom[1]) == KSTR and self.kinds(atom[2]) == KSTR:
                a, b = atom[1:]
                layer.twins.setdefault(a, []).append(b)
                layer.twins.setdefault(b, []).append(a)
            elif atom[0] == "haskey":
                self.assume_le0(ladd(1, ("len", atom[1]), -1), True)
            elif atom[0] == "exists":
                d = atom[1]
                if d[0] == "members":
                    self.assume_le0(ladd(1, ("len", d[1]), -1), True)
                elif d[0] == "range" and d[3] == 1:
                    self.assume_le0(ladd(1, ladd(d[2], d[1], -1), -1), True)
            elif atom[0] == "jeq" and self.kinds(atom[1]) <= {LIST, DICT}:
                n = ladd(("len", atom[1]), ("len", atom[2]), -1)
                self.assume_le0(n, True)
                self.assume_le0(lmul(n, -1), True)

    def decide(self, atom: Term) -> bool:
        from . import strings

        atom = strings.settle(atom)
        v = self.truth(atom)
        if v is not None:
            return v
        for layer in self.layers:
            # What was decided of a string that's known better now?
            for a, v in layer.bools.items():
                if a[0] == atom[0] and strings.has_hom(a) and strings.settle(a) == atom:
                    return v
        val = self.fork(level(atom), 2) == 0
        self.assume(atom, val)
        return val

    # -- equality of terms

    def rep(self, t: Term) -> Term:
        """The representative of the terms known to be the same as _t_."""
        return origin(t)

    # -- guards

    def assume_guard(self, g: Tuple) -> None:
        k = g[0]
        if k == "kind":
            self.assume_kind(g[1], g[2])
        elif k == "le0":
            self.assume_le0(g[1])
        elif k == "ne0":
            if self.eq0_implied(g[1]):
                raise Infeasible
            self.assume_ne0(g[1])
        elif k == "lang":
            self.assume_lang(g[1], g[2])
        elif k == "bool":
            self.assume(g[1], g[2])
        else:
            raise Undecided(f"guard {k}")

    def holds_guard(self, g: Tuple) -> bool:
        """Decide a guard, partitioning if necessary."""
        k = g[0]
        if k == "kind":
            return self.is_kind(g[1], g[2])
        if k == "le0":
            return self.le0(g[1])
        if k == "ne0":
            return not self.eq0(g[1])
        if k == "lang":
            return self.in_lang(g[1], g[2])
        if k == "bool":
            if g[1][0] == "exists":
                from . import loops

                return loops.decide_exists(g[1]) == g[2]
            return self.decide(g[1]) == g[2]
        raise Undecided(f"guard {k}")

    def chosen(self, lvl: int, guards: Any) -> None:
        """Assume what an alternative chosen at a level says; is it one, whatever the layers above say?"""
        above = self.layers[lvl + 1 :]
        if above:
            del self.layers[lvl + 1 :]
            try:
                if not self.consistent(guards):
                    raise Dead(lvl)
            finally:
                self.layers[lvl + 1 :] = above
        for g in guards:
            self.assume_guard(g)

    def consistent(self, guards: Any) -> bool:
        """Could all of _guards_ hold, given the facts?"""
        self.layers.append(Layer([]))
        try:
            for g in guards:
                self.assume_guard(g)
        except Infeasible:
            return False
        finally:
            self.layers.pop()
        return True


_UNSIGNED = dfa.fullmatch(r"\s*\+?[\d_]*\s*")
_POSITIVE = dfa.fullmatch(r"\s*\+?[0_]*[1-9][\d_]*\s*")
_NEGATIVE = dfa.fullmatch(r"\s*-[0_]*[1-9][\d_]*\s*")
_WS = dfa.fullmatch(r"\s*")
_NOT_LED = dfa.fullmatch(r"(?:\S.*)?", 16)
_NOT_TRAILED = dfa.fullmatch(r"(?:.*\S)?", 16)
_TRIM = {
    "strip": (_WS, dfa.conj(_NOT_LED, _NOT_TRAILED), _WS),
    "lstrip": (_WS, _NOT_LED, dfa.EPS),
    "rstrip": (dfa.EPS, _NOT_TRAILED, _WS),
}
_NOT_POSITIVE = dfa.fullmatch(r"0|-[1-9][0-9]*")
_JUST_ZERO = dfa.lit("0")
_ZERO = dfa.fullmatch(r"\s*[+-]?[0_]*\s*")
_INT_TEXT = dfa.fullmatch(r"0|-?[1-9][0-9]*")


def _fm(cons: List[Any]) -> bool:
    """Fourier-Motzkin: could all of `c <= 0` hold (over the rationals)?"""
    cur = set()
    for c, i in cons:
        if not i:
            if c > 0:
                return False
        else:
            cur.add((c, i))
    while cur:
        count: Dict[Term, List[int]] = {}
        for c, i in cur:
            for t, k in i:
                p = count.setdefault(t, [0, 0])
                p[k > 0] += 1
        t = min(count, key=lambda x: count[x][0] * count[x][1])
        pos, neg, rest = [], [], set()
        for con in cur:
            k = dict(con[1]).get(t, 0)
            if k > 0:
                pos.append((con, k))
            elif k < 0:
                neg.append((con, -k))
            else:
                rest.add(con)
        for (cp, ip), kp in pos:
            for (cn, inn), kn in neg:
                d: Dict[Term, int] = {}
                for tt, k in ip:
                    d[tt] = d.get(tt, 0) + k * kn
                for tt, k in inn:
                    d[tt] = d.get(tt, 0) + k * kp
                c = cp * kn + cn * kp
                items = tuple(
                    sorted(((a, b) for a, b in d.items() if b), key=lambda p: repr(p[0]))
                )
                if not items:
                    if c > 0:
                        return False
                else:
                    from math import gcd

                    g = 0
                    for _, k in items:
                        g = gcd(g, abs(k))
                    if g > 1:
                        # integer tightening
                        items = tuple((a, b // g) for a, b in items)
                        c = -((-c) // g)
                    rest.add((c, items))
        cur = rest
        if len(cur) > 400:
            return True
    return True
