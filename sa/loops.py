"""Loops over collections of unknown size, summarised for a generic element."""

from __future__ import annotations

import ast
from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

from . import interp as I
from .freeze import freeze
from .state import MISSING
from .state import Dead
from .state import Infeasible
from .state import Layer
from .state import Undecided
from .state import ladd
from .state import lin
from .state import level
from .state import mklin
from .values import POISON
from .values import Later
from .values import S
from .values import DictV
from .values import Each
from .values import Inst
from .values import Item
from .values import IterV
from .values import ListV
from .values import Obj
from .values import Poison
from .values import Raised
from .values import RaiseSeg
from .values import SliceV
from .values import Sym
from .values import Tracker
from .values import TupV
from .values import appendf
from .values import getf
from .values import mk
from .values import setf

# --- substitution -----------------------------------------------------------------------


def subst_term(t: Any, f: Callable[[Any], Any]) -> Any:
    """Replace the variables in a term."""
    if isinstance(t, frozenset):
        return t
    if not isinstance(t, tuple) or not level(t):
        return t
    if len(t) == 2 and t[0] == "var":
        return f(t)
    if t and t[0] == "lin":
        out: Any = t[1]
        for x, k in t[2]:
            y = subst_term(x, f)
            if isinstance(y, bool):
                y = int(y)
            out = ladd(out, y, k)
        return out
    r = tuple(subst_term(x, f) for x in t)
    if r and r[0] == "cat":
        from . import pylib

        return pylib.cat_term(r[1:])
    if r and r[0] == "strof" and isinstance(r[1], int):
        return str(r[1])
    return r


def subst(v: Any, f: Callable[[Any], Any], memo: Optional[Dict[int, Any]] = None) -> Any:
    """Replace the variables in a value."""
    if memo is None:
        memo = {}
    if isinstance(v, Sym):
        return mk(subst_term(v.term, f)) if level(v.term) else v
    if isinstance(v, tuple):
        r = tuple(subst(x, f, memo) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    if isinstance(v, TupV):
        return TupV(subst_segs(v.segs, f, memo))
    if isinstance(v, (Item, Each, RaiseSeg)):
        return subst_segs((v,), f, memo)[0]
    if isinstance(v, SliceV):
        return SliceV(subst(v.start, f, memo), subst(v.stop, f, memo), subst(v.step, f, memo))
    if isinstance(v, Inst):
        if id(v) in memo:
            return memo[id(v)][1]
        if not mentions(v):
            return v
        if isinstance(v, ListV):
            o: Any = ListV(v.cls)
        elif isinstance(v, DictV):
            o = DictV(v.cls)
        else:
            o = Inst(v.cls)
        memo[id(v)] = (v, o)
        for k, x in list(v.f.items()):
            if k == "#segs":
                o.f[k] = subst_segs(x, f, memo)
            else:
                o.f[k] = subst(x, f, memo)
        return o
    if isinstance(v, IterV) and v.f.get("#rem") is not None:
        o = IterV(v.thunk, v.is_async, v.name)
        rem = v.f["#rem"]
        o.f["#rem"] = rem if isinstance(rem, Poison) else subst_segs(rem, f, memo)
        return o
    return v


def mentions(v: Any, seen: Optional[set] = None) -> bool:
    """Does _v_ depend on a loop variable?"""
    if seen is None:
        seen = set()
    if isinstance(v, Sym):
        return bool(level(v.term))
    if isinstance(v, tuple):
        return any(mentions(x, seen) for x in v)
    if isinstance(v, TupV):
        return mentions(v.segs, seen)
    if isinstance(v, Item):
        return mentions(v.v, seen)
    if isinstance(v, Each):
        return True
    if isinstance(v, SliceV):
        return any(mentions(x, seen) for x in (v.start, v.stop, v.step))
    if isinstance(v, Inst):
        if id(v) in seen:
            return False
        seen.add(id(v))
        return any(mentions(x, seen) for x in v.f.values())
    return False


def subst_segs(segs: Tuple, f: Callable[[Any], Any], memo: Dict[int, Any]) -> Tuple:
    out: List[Any] = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(subst(s.v, f, memo)))
        elif isinstance(s, RaiseSeg):
            out.append(s)
        else:
            v = f(s.var)
            if not (isinstance(v, tuple) and v[0] == "var"):
                v = s.var
            out.append(
                Each(
                    subst_term(s.dom, f),
                    v,
                    tuple(
                        (subst_term(g, f), subst_segs(x, f, memo)) for g, x in s.cases
                    ),
                )
            )
    return tuple(out)


def shifted(e: Each, lvl: int) -> Each:
    """_e_ with its variable renamed to the one of layer _lvl_."""
    lo = e.var[1]
    if lo == lvl:
        return e
    d = lvl - lo

    def f(v: Any) -> Any:
        return ("var", v[1] + d) if v[1] >= lo else v

    return Each(
        e.dom,
        ("var", lvl),
        tuple((subst_term(g, f), subst_segs(x, f, {})) for g, x in e.cases),
    )


def at_depth(segs: Tuple) -> Tuple:
    return tuple(shifted(s, S.depth + 1) if isinstance(s, Each) else s for s in segs)


def instantiate(e: Each, t: Any) -> Each:
    """_e_ with its variable replaced by a term of an outer layer."""
    lo = e.var[1]
    d = -1

    def f(v: Any) -> Any:
        if v[1] == lo:
            return t
        return ("var", v[1] + d) if v[1] > lo else v

    return Each(
        e.dom,
        e.var,
        tuple((subst_guards(g, f), subst_segs(x, f, {})) for g, x in e.cases),
    )


def subst_guards(gs: Tuple, f: Callable[[Any], Any]) -> Tuple:
    return tuple(subst_term(g, f) for g in gs)


# --- domains ------------------------------------------------------------------------------


def assume_dom(dom: Any, var: Any) -> None:
    k = dom[0]
    if k == "range":
        _, lo, hi, step = dom
        if S.short_ints:
            for x in (lo, hi):
                if isinstance(x, tuple):
                    S._bound_ints(lin(x)[1])
        if isinstance(step, int) and step > 0 or _positive(step):
            S.assume_le0(ladd(lo, var, -1))
            S.assume_le0(ladd(ladd(var, hi, -1), 1))
        elif isinstance(step, int) or _negative(step):
            S.assume_le0(ladd(var, lo, -1))
            S.assume_le0(ladd(ladd(hi, var, -1), 1))
    elif k == "members":
        S.assume_le0(ladd(1, ("len", dom[1]), -1))
    elif k == "until":
        assume_dom(dom[1], var)


def _positive(t: Any) -> bool:
    return isinstance(t, tuple) and S.lin_implied(ladd(1, t, -1))


def _negative(t: Any) -> bool:
    return isinstance(t, tuple) and S.lin_implied(ladd(t, 1))


def nonempty(dom: Any) -> bool:
    k = dom[0]
    if k == "range":
        _, lo, hi, step = dom
        if isinstance(step, int) and step > 0 or _positive(step):
            return not S.le0(ladd(hi, lo, -1))
        if isinstance(step, int) or _negative(step):
            return not S.le0(ladd(lo, hi, -1))
    if k == "members":
        return not S.le0(("len", dom[1]))
    if k == "split":
        return True
    return S.decide(("nonempty", dom))


def first_of_dom(dom: Any) -> Any:
    if dom[0] == "range":
        return dom[1]
    if dom[0] == "members":
        return 0
    return ("first", dom, ())


# --- running a loop -----------------------------------------------------------------------


def run(segs: Tuple, body: Callable[[Any], Any], it: Any) -> Any:
    """Run a loop body for every element; return how the loop ended."""
    for i, s in enumerate(segs):
        if isinstance(s, Item):
            ctl = body(s.v)
            if ctl and ctl != I.CONTINUE:
                if it is not None:
                    setf(it, "#rem", tuple(segs[i + 1 :]))
                return ctl
        elif isinstance(s, RaiseSeg):
            raise Raised(s.exc)
        else:
            ctl = loop_each(s, body)
            if ctl and ctl != I.CONTINUE:
                if it is not None:
                    setf(it, "#rem", after(s, segs[i + 1 :]))
                return ctl
    return I.NORMAL


_ended_at: List[Any] = [None]


def after(e: Each, rest: Tuple) -> Any:
    """What an iterator has left when the loop ended within _e_."""
    from .pylib import plain_each

    t = _ended_at[0]
    if t is not None and plain_each(e) and e.dom[0] == "range" and e.dom[3] == 1:
        return (Each(("range", ladd(t, 1), e.dom[2], 1), e.var, e.cases), *rest)
    return POISON


def emit(e: Each, body: Callable[[Any], Any]) -> Any:
    """Run the body for what one element of _e_ produces."""
    for guards, segs in e.cases:
        if all(S.holds_guard(g) for g in guards):
            return run(segs, body, None)
    return I.NORMAL


class Path:
    __slots__ = ("guards", "ctl", "writes", "exc")

    def __init__(self, guards: Tuple, ctl: Any, writes: Dict, exc: Any):
        self.guards = guards
        self.ctl = ctl
        self.writes = writes
        self.exc = exc


def body_paths(e: Each, body: Callable[[Any], Any], tracker: Tracker) -> List[Path]:
    paths: List[Path] = []
    h = S.heap
    h.trackers.append(tracker)
    neff = len(S.effects)
    ncop = len(S.copies)

    def one() -> None:
        tracker.begin()
        mark, stamp = h.mark(), tracker.stamp
        layer = S.layers[-1]
        try:
            assume_dom(e.dom, e.var)
            n0 = len(layer.trace)
            exc = None
            ctl: Any = I.NORMAL
            try:
                ctl = emit(e, body)
            except Raised as r:
                exc = r.exc
            written = dict(tracker.written)
            final = {
                k: (kind, tracker.objs[k].f.get(k[1], MISSING))
                for k, kind in written.items()
            }
            guards = tuple(layer.trace[n0:])
        finally:
            h.rollback(mark, stamp)
            del S.copies[ncop:]
        writes = {}
        for k, (kind, val) in final.items():
            o = tracker.objs[k]
            if kind == "append":
                old = o.f.get(k[1], ())
                writes[k] = ("append", tuple(val[len(old) :]))
            else:
                writes[k] = ("set", val)
        if excluded(e, guards):
            return
        paths.append(Path(guards, ctl, writes, exc))

    try:
        S.explore(one, reset=paths.clear)
    finally:
        h.trackers.remove(tracker)
        del S.copies[ncop:]
    if len(S.effects) > neff:
        raise Undecided("a loop that changes its input")
    return paths


def excluded(e: Each, guards: Tuple) -> bool:
    """Is no element like this (known from an earlier search)?"""
    gs = set(guards)
    for layer in S.layers:
        for dom, lo, dnf, _ in layer.exists:
            if dom == e.dom:
                for g in dnf:
                    if set(_relevel(g, lo, e.var[1])) <= gs:
                        return True
    return False


def ruled_out(e: Each) -> bool:
    """Is the current element one of those known not to exist? (This may fork.)"""
    for layer in list(S.layers):
        for dom, lo, dnf, _ in list(layer.exists):
            if dom == e.dom:
                for g in dnf:
                    if all(S.holds_guard(_relevel(x, lo, e.var[1])) for x in g):
                        return True
    return False


def _relevel(g: Tuple, lo: int, to: int) -> Tuple:
    if lo == to:
        return g
    d = to - lo
    return subst_guards(g, lambda v: ("var", v[1] + d) if v[1] >= lo else v)


def loop_each(e: Each, body: Callable[[Any], Any]) -> Any:
    e = shifted(e, S.depth + 1)
    tracker = Tracker()
    paths = body_paths(e, body, tracker)
    if not paths:
        return I.NORMAL
    counters = find_counters(e, body, tracker, paths)
    if counters is not None:
        paths = counters
    else:
        find_memos(e, body, tracker, paths)
        turning = turning_points(e, tracker, paths)
        if turning is not None:
            return in_phases(e, body, paths, turning, tracker)

    exits = [p for p in paths if p.exc is not None or p.ctl not in (I.NORMAL, I.CONTINUE)]
    normal = [p for p in paths if p.exc is None and p.ctl in (I.NORMAL, I.CONTINUE)]
    if not exits:
        apply(e, e.dom, normal, tracker)
        return I.NORMAL

    dnf = [p.guards for p in exits]
    found, fid = exists(e, dnf)
    if not found:
        apply(e, e.dom, normal, tracker)
        return I.NORMAL

    # The elements before the first one that ends the loop.
    unconditional = any(not g for g in dnf)
    if not (unconditional and len(paths) == 1) and normal:
        before = ("range", e.dom[1], fid[1], 1) if fid[:1] == ("at",) else ("until", e.dom, fid)
        apply(e, before, normal, tracker)
    if unconditional and len(paths) == 1:
        t = first_of_dom(e.dom)
    else:
        t = fid[1] if fid[:1] == ("at",) else ("first", e.dom, fid)
    inst = instantiate(e, t)
    assume_dom(e.dom, t) if not isinstance(t, int) else None
    lo = e.var[1]

    def f(v: Any) -> Any:
        return t if v[1] == lo else v

    if len(exits) > 1:
        i = S.fork(level(t), len(exits))
    else:
        i = 0
    S.chosen(level(t), [subst_guard(g, f) for g in exits[i].guards])
    ctl = emit(inst, body)
    if ctl in (I.NORMAL, I.CONTINUE):
        raise Infeasible
    _ended_at[0] = t
    return ctl


def turning_points(e: Each, tracker: Tracker, paths: List[Path]) -> Optional[List[Path]]:
    """The paths after which the loop goes on in another state, if it carries one."""
    if e.dom[0] not in ("range", "members") or e.dom[0] == "range" and e.dom[3] != 1:
        return None
    out: List[Path] = []
    for k, o in tracker.read_first.items():
        if k in tracker.memos or k[1] == "#rem":
            continue
        writes = [p for p in paths if k in p.writes]
        if not writes:
            continue
        old = o.f.get(k[1], MISSING)
        if any(p.writes[k][0] != "set" for p in writes) or old is MISSING:
            return None
        try:
            old = freeze(old)
            for p in writes:
                if freeze(p.writes[k][1]) != old and p not in out:
                    out.append(p)
        except Undecided:
            return None
    return out or None


_PHASES = [0]


def in_phases(e: Each, body: Callable[[Any], Any], paths: List[Path], turning: List[Path], tracker: Tracker) -> Any:
    """The elements before the first that changes what the loop carries, that one, and the others."""
    if _PHASES[0] >= 3:
        raise Undecided("a value carried around a loop")
    ends = [p for p in paths if p in turning or p.exc is not None or p.ctl not in (I.NORMAL, I.CONTINUE)]
    normal = [p for p in paths if p not in ends]
    lo = e.var[1]
    if len(ends) == len(paths):
        if not nonempty(e.dom):
            return I.NORMAL
        t = first_of_dom(e.dom)
        ctl = emit(instantiate(e, t), body)
    else:
        found, fid = exists(e, [p.guards for p in ends])
        if not found:
            apply(e, e.dom, normal, tracker)
            return I.NORMAL
        if any(not p.guards for p in ends):
            raise Undecided("a value carried around a loop")
        apply(e, ("range", e.dom[1], fid[1], 1) if fid[:1] == ("at",) else ("until", e.dom, fid), normal, tracker)
        t = fid[1] if fid[:1] == ("at",) else ("first", e.dom, fid)
        if not isinstance(t, int):
            assume_dom(e.dom, t)
        i = S.fork(level(t), len(ends))
        S.chosen(level(t), [subst_guard(g, lambda v: t if v[1] == lo else v) for g in ends[i].guards])
        ctl = emit(instantiate(e, t), body)
    if ctl not in (I.NORMAL, I.CONTINUE):
        _ended_at[0] = t
        return ctl
    hi = e.dom[2] if e.dom[0] == "range" else ("len", e.dom[1])
    _PHASES[0] += 1
    try:
        return loop_each(Each(("range", ladd(t, 1), hi, 1), e.var, e.cases), body)
    finally:
        _PHASES[0] -= 1


def subst_guard(g: Tuple, f: Callable[[Any], Any]) -> Tuple:
    return subst_term(g, f)


def linear(e: Each, guards: Tuple) -> bool:
    """Do guards say no more of an element of a range than how its index compares?"""
    if e.dom[0] != "range" or e.dom[3] != 1 or not guards:
        return False
    for g in guards:
        if not isinstance(g, tuple) or g[0] != "le0":
            return False
        c, items = lin(g[1])
        for t, k in items:
            if t == e.var:
                if k not in (1, -1):
                    return False
            elif level(t) >= e.var[1]:
                return False
    return any(t == e.var for g in guards for t, _ in lin(g[1])[1])


def between(e: Each, guards: Tuple) -> Any:
    """The indices of a range that linear guards hold for: the first, and the one after the last."""
    lo, hi = e.dom[1], e.dom[2]
    for g in guards:
        k = dict(lin(g[1])[1]).get(e.var)
        if k is None:
            if not S.le0(g[1]):
                return None
            continue
        rest = ladd(g[1], e.var, -k)
        if k == 1:  # i <= -rest
            b = ladd(1, rest, -1)
            if S.le0(ladd(b, hi, -1)):
                hi = b
        elif S.le0(ladd(lo, rest, -1)):  # i >= rest
            lo = rest
    if S.le0(ladd(hi, lo, -1)):
        return None
    return lo, hi


def exists(e: Each, dnf: List[Tuple]) -> Any:
    """Is there an element of the domain one of the conjunctions of _dnf_ holds for?"""
    if any(not g for g in dnf):
        return nonempty(e.dom), ()
    if all(linear(e, g) for g in dnf):
        first: Any = None
        for g in dnf:
            b = between(e, g)
            if b is not None and (first is None or S.le0(ladd(b[0], first, -1))):
                first = b[0]
        return first is not None, ("at", first)
    lo = e.var[1]
    for layer in S.layers:
        for dom, l2, d2, _ in layer.exists:
            if dom == e.dom and same_dnf(e, dnf, [_relevel(g, l2, lo) for g in d2]):
                return False, ()
    key = None
    for dom, l2, d2, k in S.layers[0].bools.get("#known", ()):  # type: ignore
        if dom == e.dom:
            d2 = [_relevel(g, l2, lo) for g in d2]
            if d2 == dnf or same_dnf(e, dnf, d2):
                key = k
                break
    if key is None:
        if e.dom[0] in ("members", "range") and implies(e, [()], dnf):
            return nonempty(e.dom), ()
        key = subst_term(
            tuple(sorted((tuple(g) for g in dnf), key=repr)),
            lambda v: ("bv", v[1] - lo) if v[1] >= lo else v,
        )
        known = S.layers[0].bools.setdefault("#known", [])  # type: ignore
        known.append((e.dom, lo, dnf, key))
    atom = ("exists", e.dom, key)
    fid = key
    if not dom_may_be_nonempty(e.dom):
        return False, fid
    v = decide_exists(atom, e, dnf)
    if not v:
        S._layer(level(atom)).exists.append((e.dom, lo, dnf, key))
    return v, fid


def count_term(e: Each) -> Any:
    """How many items does _e_ have? The same term whatever the items are."""
    lo = e.var[1]
    by: Dict[Any, List[Tuple]] = {}
    for g, segs in e.cases:
        k = shape(segs)
        if k != 0:
            by.setdefault(k, []).append(g)
    out: Any = 0
    for k, dnf in by.items():
        key = None
        known = S.layers[0].bools.setdefault("#counts", [])  # type: ignore
        for dom, l2, k2, d2, kk in known:
            if dom == e.dom:
                d3 = [_relevel(g, l2, lo) for g in d2]
                if _relevel((k2,), l2, lo) == (k,) and (d3 == dnf or same_dnf(e, dnf, d3)):
                    key = kk
                    break
        if key is None:
            key = subst_term(
                (k, tuple(sorted((tuple(g) for g in dnf), key=repr))),
                lambda v: ("bv", v[1] - lo) if v[1] >= lo else v,
            )
            known.append((e.dom, lo, k, dnf, key))
        if isinstance(k, int):
            out = ladd(out, ("count", e.dom, key[1]), k)
        else:
            out = ladd(out, ("count", e.dom, key))
    return out


def shape(segs: Tuple) -> Any:
    """The number of items, or a description of what it depends on."""
    n = 0
    rest = []
    for s in segs:
        if isinstance(s, Item):
            n += 1
        elif isinstance(s, RaiseSeg):
            raise Undecided("the length of a failing sequence")
        else:
            cs = tuple((g, shape(x)) for g, x in s.cases)
            cs = tuple(c for c in cs if c[1] != 0)
            if cs:
                rest.append((s.dom, s.var, cs))
    return n if not rest else (n, *rest)


def decide_exists(atom: Any, e: Optional[Each] = None, dnf: Optional[List[Tuple]] = None) -> bool:
    v = S.truth(atom)
    if v is not None:
        return v
    guarded = e is None
    if e is None:
        for dom, l2, d2, k in S.layers[0].bools.get("#known", ()):  # type: ignore
            if dom == atom[1] and k == atom[2]:
                e, dnf = Each(dom, ("var", l2), ()), d2
                break
        else:
            return S.decide(atom)
    lo = e.var[1]
    for dom, l2, d2, k in list(S.layers[0].bools.get("#known", ())):  # type: ignore
        if dom != e.dom or k == atom[2]:
            continue
        t = S.truth(("exists", dom, k))
        if t is None:
            continue
        d2 = [_relevel(g, l2, lo) for g in d2]
        if t and implies(e, d2, dnf):
            S.assume(atom, True)
            return True
        if not t and implies(e, dnf, d2):
            S.assume(atom, False)
            return False
    if S.fork(level(atom), 2) == 0:
        S.assume(atom, True)
        if e.dom[0] not in ("members", "range") and not nonempty(e.dom):
            raise Dead(level(atom))
        if guarded:
            # The first such element is like one of them.
            t = ("first", e.dom, atom[2])
            assume_dom(e.dom, t)
            i = S.fork(level(t), len(dnf)) if len(dnf) > 1 else 0
            S.chosen(level(t), [subst_guard(g, lambda v: t if v[1] == lo else v) for g in dnf[i]])
        return True
    S.assume(atom, False)
    return False


def dom_may_be_nonempty(dom: Any) -> bool:
    if dom[0] == "range" and dom[3] == 1:
        return not S.lin_implied(ladd(dom[2], dom[1], -1))
    return True


def same_dnf(e: Each, a: List[Tuple], b: List[Tuple]) -> bool:
    return implies(e, a, b) and implies(e, b, a)


def implies(e: Each, a: List[Tuple], b: List[Tuple]) -> bool:
    if all(set(x) in [set(y) for y in b] for x in a):
        return True
    ok = [True]
    for g in a:

        def one() -> None:
            assume_dom(e.dom, e.var)
            for x in g:
                S.assume_guard(x)
            for h in b:
                if all(S.holds_guard(x) for x in h):
                    return
            ok[0] = False

        S.explore(one)
        if not ok[0]:
            return False
    return True


def apply(e: Each, dom: Any, paths: List[Path], tracker: Tracker) -> None:
    """The effect of a whole loop none of whose _paths_ ends it."""
    keys: List[Any] = []
    for p in paths:
        for k in p.writes:
            if k not in keys:
                keys.append(k)
    for k in keys:
        o, field = tracker.objs[k], k[1]
        kinds = {p.writes[k][0] for p in paths if k in p.writes}
        if kinds == {"append"}:
            if k in tracker.read_first:
                raise Undecided(f"a loop that reads what it appends to ({field})")
            cases = tuple((p.guards, p.writes[k][1] if k in p.writes else ()) for p in paths)
            some = [c for c in cases if c[1]]
            if len(some) == 1 and dom[0] == "range" and linear(Each(dom, e.var, ()), some[0][0]):
                b = between(Each(dom, e.var, ()), some[0][0])
                if b is not None:
                    appendf(o, field, [Each(("range", *b, 1), e.var, (((), some[0][1]),))])
                continue
            appendf(o, field, [Each(dom, e.var, cases)])
        else:
            if k in tracker.read_first and k not in tracker.memos:
                ordinal = tracker.counters.get(k)
                if ordinal is None:
                    raise Undecided(f"a value carried around a loop ({field})")
                init, c = ordinal
                n = I.dom_count(Each(dom, e.var, (((), (Item(None),)),)))
                if field == "#rem":
                    r = advanced(init, mul(n, c))
                    setf(o, field, () if S.le0(ladd(r[0].dom[2], r[0].dom[1], -1)) else r)
                    continue
                setf(o, field, mk(ladd(I._term(init), mul(n, c))))
                continue
            setf(o, field, final_value(e, dom, o, field, k, paths))


def mul(n: Any, c: int) -> Any:
    from .state import lmul

    return lmul(n, c)


def final_value(e: Each, dom: Any, o: Obj, field: Any, k: Any, paths: List[Path]) -> Any:
    vals = [p.writes[k][1] for p in paths if k in p.writes]
    if len(paths) == 1 and not paths[0].guards and vals and dom[0] == "range" and dom[3] == 1:
        if isinstance(vals[0], Poison):
            return POISON
        before = o.f.get(field, MISSING)
        here = S.depth

        def last() -> Any:
            if S.depth < here:
                raise Undecided("a variable of the last iteration")
            if S.le0(ladd(dom[2], dom[1], -1)):
                return before.force() if isinstance(before, Later) else before
            t = ladd(dom[2], -1)
            lo = e.var[1]
            return subst(vals[0], lambda v: t if v[1] == lo else v)

        return Later(last)
    try:
        fz = {freeze(v) for v in vals}
    except Undecided:
        return POISON
    if len(fz) == 1 and all(level(x) <= S.depth for x in fz) and not isinstance(vals[0], Poison):
        dnf = [p.guards for p in paths if k in p.writes]
        old = o.f.get(field, MISSING)
        probe = Each(e.dom, e.var, tuple((g, ()) for g in dnf))

        def force() -> Any:
            ee = shifted(probe, S.depth + 1)
            found, _ = exists(ee, [c[0] for c in ee.cases])
            if found:
                return vals[0]
            return old.force() if isinstance(old, Later) else old

        return Later(force)
    return POISON


def find_counters(e: Each, body: Any, tracker: Tracker, paths: List[Path]) -> Optional[List[Path]]:
    """Recognise variables that count the iterations, and give them their values."""
    tracker.counters = {}  # type: ignore
    carried = []
    for k, o in tracker.read_first.items():
        if any(k in p.writes and p.writes[k][0] == "set" for p in paths):
            carried.append((k, o))
    if not carried:
        return None
    if e.dom[0] not in ("range", "members") or (e.dom[0] == "range" and e.dom[3] != 1):
        return None
    found = {}
    for k, o in carried:
        init = o.f.get(k[1], MISSING)
        if k[1] == "#rem":
            from .pylib import plain_each

            if init is None:
                init = o.thunk()  # type: ignore
            if not (isinstance(init, tuple) and len(init) == 1 and isinstance(init[0], Each)):
                return None
            if not plain_each(init[0]) or init[0].dom[0] != "range" or init[0].dom[3] != 1:
                return None
            # Every iteration takes one (as long as there is one).
            found[k] = (o, init, 1)
            continue
        if isinstance(init, bool) or not (
            isinstance(init, int) or isinstance(init, Sym) and S.kinds(init.term) == frozenset(["int"])
        ):
            return None
        cs = set()
        for p in paths:
            if k not in p.writes:
                if p.exc is None and p.ctl in (I.NORMAL, I.CONTINUE):
                    cs.add(0)
                continue
            v = p.writes[k][1]
            if isinstance(v, (int, Sym)) and not isinstance(v, bool):
                d = ladd(I._term(v), I._term(init), -1)
                if p.exc is None and p.ctl in (I.NORMAL, I.CONTINUE):
                    cs.add(d if isinstance(d, int) else None)
            else:
                return None
        if len(cs) != 1 or None in cs:
            return None
        found[k] = (o, init, cs.pop())
    lo = e.dom[1] if e.dom[0] == "range" else 0
    ordinal = ladd(e.var, lo, -1)
    h = S.heap
    mark = h.mark()

    def body2(v: Any) -> Any:
        return body(v)

    def run_with() -> List[Path]:
        t2 = Tracker()
        t2.counters = {}  # type: ignore
        for k, (o, init, c) in found.items():
            if k[1] == "#rem":
                setf(o, k[1], advanced(init, mul(ordinal, c)))
                continue
            setf(o, k[1], mk(ladd(I._term(init), mul(ordinal, c))))
        ps = body_paths(e, body2, t2)
        # Check the induction.
        for p in ps:
            if p.exc is not None or p.ctl not in (I.NORMAL, I.CONTINUE):
                continue
            for k, (o, init, c) in found.items():
                if k[1] == "#rem":
                    left = p.writes[k][1] if k in p.writes else o.f["#rem"]
                    if not same_rest(left, advanced(init, ladd(ordinal, 1)), p.guards):
                        raise Undecided("an iterator advanced in a loop")
                    continue
                want = mk(ladd(I._term(init), mul(ladd(ordinal, 1), c)))
                got = p.writes[k][1] if k in p.writes else o.f[k[1]]
                if freeze(got) != freeze(want):
                    raise Undecided(f"a value carried around a loop ({k[1]})")
        tracker.objs.update(t2.objs)
        tracker.read_first.update(t2.read_first)
        return ps

    stamp = h.stamp
    try:
        ps = run_with()
    finally:
        h.rollback(mark, stamp)
    tracker.counters = {k: (init, c) for k, (o, init, c) in found.items()}  # type: ignore
    return ps


def advanced(segs: Tuple, n: Any) -> Tuple:
    """What is left of a range after _n_ more of its elements."""
    e = segs[0]
    return (Each(("range", ladd(e.dom[1], n), e.dom[2], 1), e.var, e.cases),)


def same_rest(a: Any, b: Tuple, guards: Tuple) -> bool:
    """Are two remainders of the same range equal (given some guards)?"""

    def empty(x: Any) -> bool:
        if x == ():
            return True
        n = ladd(x[0].dom[2], x[0].dom[1], -1)
        return any(
            g[0] == "le0" and isinstance(ladd(n, g[1], -1), int) and ladd(n, g[1], -1) <= 0 for g in guards
        ) or (not isinstance(n, int) and S.lin_implied(n))

    if not isinstance(a, tuple) or len(a) > 1:
        return False
    if a and not isinstance(a[0], Each):
        return False
    if a and a[0].dom == b[0].dom:
        return True
    return empty(a) and empty(b)


def find_memos(e: Each, body: Any, tracker: Tracker, paths: List[Path]) -> None:
    """Recognise cells that are set to the same value whenever they are set, and that
    make no difference once they have been."""
    found: Dict[Any, Any] = {}
    for k, o in tracker.read_first.items():
        if k[1] == "#rem":
            continue  # an iterator isn't what it was
        vals = [p.writes[k] for p in paths if k in p.writes]
        if not vals or any(kind != "set" or isinstance(v, Poison) for kind, v in vals):
            continue
        try:
            fz = {freeze(v) for _, v in vals}
        except Undecided:
            continue
        if len(fz) != 1 or any(level(x) > S.depth for x in fz):
            continue
        found[k] = (o, vals[0][1])
    if not found:
        return
    h = S.heap
    mark, stamp = h.mark(), h.stamp
    for _ in range(3):
        t2 = Tracker()
        n = sum(len(x.trace) for x in S.layers)
        try:
            for k, (o, v) in found.items():
                setf(o, k[1], v)
            again = body_paths(e, body, t2)
        finally:
            h.rollback(mark, stamp)
        try:
            if signature(paths, found) == signature(again, found):
                tracker.memos = set(found)
                return
        except Undecided:
            return
        # More may be known about what doesn't change in the loop by now.
        t3 = Tracker()
        paths = body_paths(e, body, t3)
        for k, (o, v) in found.items():
            for p in paths:
                if k in p.writes and freeze(p.writes[k][1]) != freeze(v):
                    return
        del n


def signature(paths: List[Path], but: Any) -> Any:
    out = set()
    for p in paths:
        writes = tuple(
            sorted(((k, kind, freeze(v)) for k, (kind, v) in p.writes.items() if k not in but), key=repr)
        )
        ctl = p.ctl if isinstance(p.ctl, str) else freeze(p.ctl) if p.ctl is not None else None
        out.add((p.guards, ctl, writes, freeze(p.exc) if p.exc is not None else None))
    return out


# --- helpers ------------------------------------------------------------------------------


def any_each(e: Each, pred: Callable[[Any], bool]) -> bool:
    def body(v: Any) -> Any:
        return (I.RETURN, True) if pred(v) else I.NORMAL

    ctl = loop_each(e, body)
    return isinstance(ctl, tuple)


def any_segs(segs: Tuple, pred: Callable[[Any], bool]) -> bool:
    def body(v: Any) -> Any:
        return (I.RETURN, True) if pred(v) else I.NORMAL

    return isinstance(run(segs, body, None), tuple)


def exists_emission(e: Each) -> bool:
    return any_each(e, lambda v: True)


def map_segs(segs: Tuple, f: Callable[[Any], Any]) -> Tuple:
    """Apply a projection to every element."""
    out: List[Any] = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(f(s.v)))
        elif isinstance(s, RaiseSeg):
            out.append(s)
        else:
            out.append(Each(s.dom, s.var, tuple((g, map_segs(x, f)) for g, x in s.cases)))
    return tuple(out)


def map_run(segs: Tuple, f: Callable[[Any], Any]) -> Tuple:
    """Apply a function of the analysed program to every element."""
    out = ListV(I.LISTC)

    def body(v: Any) -> Any:
        r = f(v)
        appendf(out, "#segs", [Item(r)])
        return I.NORMAL

    try:
        run(segs, body, None)
    except Raised as e:
        appendf(out, "#segs", [RaiseSeg(e.exc)])
    return getf(out, "#segs")


def filter_run(segs: Tuple, f: Callable[[Any], bool]) -> Tuple:
    out = ListV(I.LISTC)

    def body(v: Any) -> Any:
        if f(v):
            appendf(out, "#segs", [Item(v)])
        return I.NORMAL

    try:
        run(segs, body, None)
    except Raised as e:
        appendf(out, "#segs", [RaiseSeg(e.exc)])
    return getf(out, "#segs")


def eq_segs(sa: Tuple, sb: Tuple) -> bool:
    raise Undecided("equality of sequences of unknown length")


def while_as_range(n: ast.While, fr: Any) -> Optional[Callable[[], Any]]:
    """`while i < e: ...; i += 1` as a loop over a range."""
    t = n.test
    if not (
        isinstance(t, ast.Compare)
        and len(t.ops) == 1
        and isinstance(t.ops[0], ast.Lt)
        and isinstance(t.left, ast.Name)
        and n.body
        and not n.orelse
    ):
        return None
    last = n.body[-1]
    name = t.left.id
    if not (
        isinstance(last, ast.AugAssign)
        and isinstance(last.op, ast.Add)
        and isinstance(last.target, ast.Name)
        and last.target.id == name
        and isinstance(last.value, ast.Constant)
        and last.value.value == 1
    ):
        return None
    for st in n.body[:-1]:
        for x in ast.walk(st):
            if isinstance(x, ast.Continue):
                return None
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                return None
    lo = I.lookup(name, fr)
    hi = I.ev(t.comparators[0], fr)
    if isinstance(lo, int) and isinstance(hi, int):
        return None
    if not (isinstance(I._term(lo), (int, tuple)) and isinstance(I._term(hi), (int, tuple))):
        return None

    def go() -> Any:
        segs = I.range_segs(lo, hi, 1)
        empty = not nonempty(("range", I._term(lo), I._term(hi), 1))

        def body(v: Any) -> Any:
            I.store(name, v, fr)
            return I.exec_body(n.body[:-1], fr)

        ctl = run(segs, body, None)
        if ctl == I.BREAK:
            return I.NORMAL
        if isinstance(ctl, tuple):
            return ctl
        I.store(name, lo if empty else hi, fr)
        return I.NORMAL

    return go


_ = (Layer, mklin)
