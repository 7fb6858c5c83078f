"""Unknown documents that the analysed program changes.

A term such as `child(doc, k)` denotes the object that was at that place at first.
`S.effects` is the sequence of changes made since; what a container holds now is what
it held at first with the changes to it applied in order.  Whether two terms denote the
same container is decided like anything else.
"""

from __future__ import annotations

from typing import Any
from typing import List
from typing import Tuple

from . import interp as I
from .state import DICT
from .state import LIST
from .state import ladd
from .state import origin
from .values import S
from .values import Sym
from .values import mk
from .values import undecided

CHANGES = ("setkey", "delkey", "setindex", "delindex", "insert")
GONE = ("gone",)


def changed(effects: Any = None) -> List[Tuple]:
    return [e for e in (S.effects if effects is None else effects) if e[0] in CHANGES]


def depth(t: Any) -> int:
    n = 0
    while t[0] == "child":
        t, n = t[1], n + 1
    return n


def up(t: Any, n: int) -> Any:
    for _ in range(n):
        t = t[1]
    return t


def same_key(i: Any, j: Any) -> bool:
    if i == j and type(i) is type(j):
        return True
    si, sj = _is_str(i), _is_str(j)
    if si != sj:
        return False
    return I.eq(mk(i), mk(j)) if si else S.eq0(ladd(i, j, -1))


def _is_str(k: Any) -> bool:
    if isinstance(k, str):
        return True
    return isinstance(k, tuple) and k[0] != "lin" and I.STR in S.kinds(k)


def same_object(u: Any, t: Any) -> bool:
    if u == t:
        return True
    if depth(u) != depth(t) or u[0] != "child" or t[0] != "child":
        return False
    if not same_object(u[1], t[1]):
        return False
    return same_key(u[2], t[2])


def below(t: Any, effects: Any = None) -> List[Any]:
    """Containers that were changed at or below _t_ (by where they were at first)."""
    out: List[Any] = []
    n = depth(t)
    for e in changed(effects):
        u = e[1]
        d = depth(u)
        if d >= n and u not in out and same_object(up(u, d - n), t):
            out.append(u)
    return out


def of(t: Any) -> List[Tuple]:
    """The changes made to the container _t_ itself."""
    return [e for e in changed() if same_object(e[1], t)]


def check_shallow(t: Any) -> None:
    if changed() and of(t):
        undecided("iteration over a changed container")


def check_deep(t: Any) -> None:
    if changed() and below(t):
        undecided("a changed document is read as a whole")


# --- objects ----------------------------------------------------------------------------


def lookup(t: Any, k: Any) -> Any:
    """What the object _t_ has for the key _k_: a value, GONE, or None for as at first."""
    for e in reversed(of(t)):
        if same_key(e[2], k):
            return GONE if e[0] == "delkey" else e[3]
    return None


# --- arrays -------------------------------------------------------------------------------


def _len(seg: Tuple) -> Any:
    return 1 if seg[0] == "item" else ladd(seg[2], seg[1], -1)


def total(segs: List[Tuple]) -> Any:
    n: Any = 0
    for s in segs:
        n = ladd(n, _len(s))
    return n


def content(t: Any) -> List[Tuple]:
    """The array _t_ as slices of what it was and new items."""
    segs: List[Tuple] = [("slice", 0, ("len", origin(t)))]
    for e in of(t):
        j = e[2]
        if e[0] == "insert":
            segs = _insert(segs, j, ("item", e[3]))
        elif e[0] == "delindex":
            segs = _at(segs, j, ())
        elif e[0] == "setindex":
            segs = _at(segs, j, (("item", e[3]),))
    return segs


def _insert(segs: List[Tuple], j: Any, new: Tuple) -> List[Tuple]:
    if S.eq0_implied(ladd(j, total(segs), -1)):
        return [*segs, new]
    acc: Any = 0
    for n, s in enumerate(segs):
        end = ladd(acc, _len(s))
        if S.le0(ladd(j, end, -1)):  # j <= end
            off = ladd(j, acc, -1)
            if s[0] == "item":
                if S.eq0(off):
                    return [*segs[:n], new, *segs[n:]]
                return [*segs[: n + 1], new, *segs[n + 1 :]]
            m = ladd(s[1], off)
            return [*segs[:n], ("slice", s[1], m), new, ("slice", m, s[2]), *segs[n + 1 :]]
        acc = end
    return [*segs, new]


def _find(segs: List[Tuple], j: Any) -> Tuple[int, Any]:
    acc: Any = 0
    for n, s in enumerate(segs):
        end = ladd(acc, _len(s))
        if S.le0(ladd(ladd(j, 1), end, -1)):  # j < end
            return n, ladd(j, acc, -1)
        acc = end
    return undecided("an index of a changed array")


def _at(segs: List[Tuple], j: Any, new: Tuple) -> List[Tuple]:
    n, off = _find(segs, j)
    s = segs[n]
    if s[0] == "item":
        return [*segs[:n], *new, *segs[n + 1 :]]
    m = ladd(s[1], off)
    return [*segs[:n], ("slice", s[1], m), *new, ("slice", ladd(m, 1), s[2]), *segs[n + 1 :]]


def item(t: Any, j: Any) -> Any:
    """The element of the array _t_ at the valid index _j_."""
    if not changed() or not of(t):
        return Sym(("child", t, j))
    segs = content(t)
    n, off = _find(segs, j)
    s = segs[n]
    return s[1] if s[0] == "item" else Sym(("child", t, ladd(s[1], off)))


def length(t: Any) -> Any:
    if not changed():
        return ("len", origin(t))
    own = of(t)
    if not own:
        return ("len", origin(t))
    if not S.is_kind(t, frozenset([LIST])):
        return undecided("the length of a changed object")
    n: Any = ("len", origin(t))
    for e in own:
        n = ladd(n, {"insert": 1, "delindex": -1, "setindex": 0}[e[0]])
    return n


# --- comparing --------------------------------------------------------------------------------


class under:
    """Look at documents as some changes left them."""

    def __init__(self, effects: Any):
        self.effects = list(effects)

    def __enter__(self) -> None:
        self.saved = S.effects
        S.effects = self.effects

    def __exit__(self, *a: Any) -> None:
        S.effects = self.saved


def same_final(c: Any, v: Any, w: Any, ev: Any, ew: Any, what: str) -> None:
    """The value _v_ as the changes _ev_ left it is the value _w_ as _ew_ left it."""
    from . import cmp

    if isinstance(v, Sym) and isinstance(w, Sym):
        x, y = v.term, w.term
        if origin(x) == origin(y) or cmp.alias(origin(x), origin(y)):
            if S.kinds(x) & CONTAINERS:
                if not c.paired(x, y):
                    c.differ(f"{what} (which object)", v, w)
                _tree(c, x, y, ev, ew, what)
            return
        for t in (x, y):
            if below(t, ev) or below(t, ew):
                undecided(f"{what}: changed documents")
    c.same(v, w, what)


CONTAINERS = frozenset([DICT, LIST])


def _tree(c: Any, t: Any, u: Any, ev: Any, ew: Any, what: str) -> None:
    """The same for containers that were equal at first."""
    steps: List[Any] = []
    some = False
    for x, ef in ((t, ev), (u, ew)):
        n = depth(x)
        for b in below(x, ef):
            some = True
            if depth(b) > n:
                k = up(b, depth(b) - n - 1)[2]
                if k not in steps:
                    steps.append(k)
    if not some:
        return
    if S.is_kind(t, frozenset([DICT])):
        keys = list(steps)
        for x, ef in ((t, ev), (u, ew)):
            for e in changed(ef):
                if e[2] not in keys and same_object(e[1], x):
                    keys.append(e[2])
        for k in keys:
            v, w = _member(t, k, ev), _member(u, k, ew)
            where = f"{what}[{mk(k)!r}]"
            if v is GONE or w is GONE:
                if v is not w:
                    c.differ(where, "nothing" if v is GONE else v, "nothing" if w is GONE else w)
                continue
            same_final(c, v, w, ev, ew, where)
        return
    if not S.is_kind(t, frozenset([LIST])):
        undecided("a change to a scalar")
    with under(ev):
        sv = content(t)
    with under(ew):
        sw = content(u)
    _arrays(c, t, u, sv, sw, ev, ew, steps, what)


def _member(t: Any, k: Any, effects: Any) -> Any:
    with under(effects):
        if not I.has_key(t, mk(k)):
            return GONE
        return I.pylib.dict_getitem(t, mk(k))


def _empty(s: Tuple) -> bool:
    return s[0] == "slice" and S.le0(_len(s))


def _arrays(c: Any, t: Any, u: Any, sv: List[Tuple], sw: List[Tuple], ev: Any, ew: Any, steps: List[Any], what: str) -> None:
    sv, sw = list(sv), list(sw)
    while True:
        while sv and _empty(sv[0]):
            sv.pop(0)
        while sw and _empty(sw[0]):
            sw.pop(0)
        if not sv and not sw:
            return
        if not sv or not sw:
            c.differ(f"{what} (length)", _show(sv), _show(sw))
        a, b = sv[0], sw[0]
        if a[0] == b[0] == "slice":
            if not S.eq0(ladd(a[1], b[1], -1)):
                same_final(c, Sym(("child", t, a[1])), Sym(("child", u, b[1])), ev, ew, f"{what}[…]")
                undecided(f"{what}: shifted elements")
            lo = a[1]
            hi = a[2] if S.le0(ladd(a[2], b[2], -1)) else b[2]
            for k in steps:
                if S.le0(ladd(lo, k, -1)) and S.le0(ladd(ladd(k, 1), hi, -1)):
                    same_final(c, Sym(("child", t, k)), Sym(("child", u, k)), ev, ew, f"{what}[{mk(k)!r}]")
            sv[0] = ("slice", hi, a[2])
            sw[0] = ("slice", hi, b[2])
            continue
        x = a[1] if a[0] == "item" else Sym(("child", t, a[1]))
        y = b[1] if b[0] == "item" else Sym(("child", u, b[1]))
        same_final(c, x, y, ev, ew, f"{what}[…]")
        for s, o in ((sv, a), (sw, b)):
            if o[0] == "item":
                s.pop(0)
            else:
                s[0] = ("slice", ladd(o[1], 1), o[2])


def _show(segs: List[Tuple]) -> str:
    return " ".join("item" if s[0] == "item" else f"[{mk(s[1])!r}:{mk(s[2])!r}]" for s in segs) or "end"


def roots(effects: Any) -> List[Any]:
    out = []
    for e in changed(effects):
        r = up(e[1], depth(e[1]))
        if r not in out:
            out.append(r)
    return out
