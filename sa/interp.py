"""Abstract interpretation of the package's syntax trees."""

from __future__ import annotations

import ast
import time
import builtins as pybuiltins
import collections.abc as cabc
import os
import sys
from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

from . import dfa
from .state import BOOL
from .state import DICT
from .state import FLOAT
from .state import INT
from .state import KINT
from .state import KSTR
from .state import LIST
from .state import MISSING
from .state import NULL
from .state import STR
from .state import Budget
from .state import Endless
from .state import Infeasible
from .state import Undecided
from .state import ladd
from .state import level
from .state import origin
from .state import lmul
from .values import POISON
from .values import S
from .values import Builtin
from .values import BoundV
from .values import ClassV
from .values import CoroV
from .values import DictV
from .values import Each
from .values import Ext
from .values import Frame
from .values import FuncV
from .values import Inst
from .values import Item
from .values import IterV
from .values import ListV
from .values import MatchV
from .values import ModuleV
from .values import Obj
from .values import Opaque
from .values import Poison
from .values import Unknown
from .values import Raised
from .values import RaiseSeg
from .values import RangeV
from .values import RegexV
from .values import SliceV
from .values import Sym
from .values import TupV
from .values import Wrap
from .values import appendf
from .values import delf
from .values import getf
from .values import mk
from .values import setf
from .values import show

sys.setrecursionlimit(60000)

NORMAL, BREAK, CONTINUE, RETURN = 0, 1, 2, 3

REPO = os.environ.get("SA_REPO", "/repo")
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")

_KIND_PY = {
    NULL: type(None),
    BOOL: bool,
    INT: int,
    FLOAT: float,
    STR: str,
    LIST: list,
    DICT: dict,
}

CONST = (type(None), bool, int, float, str, bytes)

_pyclasses: Dict[type, ClassV] = {}


def pyclass(c: type) -> ClassV:
    """The abstract class for a class of Python's own."""
    r = _pyclasses.get(c)
    if r is None:
        bases = [] if c is object else [pyclass(b) for b in c.__bases__]
        r = ClassV(c.__name__, bases)
        r.py = c
        r.stamp = 0
        _pyclasses[c] = r
    return r


OBJECT = pyclass(object)
LISTC, DICTC, TUPLEC, SETC, STRC = (
    pyclass(list),
    pyclass(dict),
    pyclass(tuple),
    pyclass(set),
    pyclass(str),
)
EXC = pyclass(BaseException)


def new_exc(c: Any, *args: Any) -> Inst:
    cls = c if isinstance(c, ClassV) else pyclass(c)
    e = Inst(cls)
    e.f["args"] = tuple(args)
    return e


def throw(c: Any, *args: Any) -> Any:
    raise Raised(new_exc(c, *args))


def pycall(fn: Callable[..., Any], *a: Any, **k: Any) -> Any:
    """Fold a call with constant arguments."""
    try:
        return fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        throw(type(e), *[x for x in e.args if isinstance(x, CONST)])


def is_const(v: Any) -> bool:
    if isinstance(v, CONST):
        return True
    if isinstance(v, tuple):
        return all(is_const(x) for x in v)
    return False


# --- kinds ---------------------------------------------------------------------------


def typ(v: Any) -> ClassV:
    """The class of _v_ (partitioning by kind if necessary)."""
    if isinstance(v, Sym):
        ks = sorted(S.kinds(v.term))
        for k in ks[:-1]:
            if S.is_kind(v.term, frozenset([k])):
                return pyclass(_KIND_PY.get(k) or undecided(f"type of {v!r}"))
        k = ks[-1]
        if k not in _KIND_PY:
            undecided(f"type of {v!r}")
        return pyclass(_KIND_PY[k])
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Poison):
        undecided("a variable of the last iteration")
    if isinstance(v, CONST):
        return pyclass(type(v))
    if isinstance(v, (tuple, TupV)):
        return TUPLEC
    if isinstance(v, RangeV):
        return pyclass(range)
    if isinstance(v, SliceV):
        return pyclass(slice)
    if isinstance(v, RegexV):
        return pyclass(__import__("re").Pattern)
    if isinstance(v, MatchV):
        return pyclass(__import__("re").Match)
    if isinstance(v, ClassV):
        return pyclass(type)
    if isinstance(v, (FuncV, BoundV, Builtin)):
        return pyclass(type(lambda: 0))
    if isinstance(v, IterV):
        return pyclass(type(x for x in ()))
    return undecided(f"type of {v!r}")


def undecided(msg: str) -> Any:
    raise Undecided(msg)


def _py_sub(py: type, cls: ClassV) -> bool:
    if cls.py is None:
        return False
    try:
        return issubclass(py, cls.py)
    except TypeError:
        return undecided(f"issubclass {cls}")


_STRUCTURAL = {
    cabc.Hashable: "__hash__",
    cabc.Sized: "__len__",
    cabc.Iterable: "__iter__",
    cabc.Container: "__contains__",
    cabc.Callable: "__call__",
    cabc.Iterator: "__next__",
}


def subclass(c: ClassV, cls: ClassV) -> bool:
    if cls in c.mro:
        return True
    if c.py is not None:
        return _py_sub(c.py, cls)
    if cls.py is not None:
        for b in c.mro:
            if b.py is not None and b.py is not object and _py_sub(b.py, cls):
                return True
        if cls.py in _STRUCTURAL:
            name = _STRUCTURAL[cls.py]
            if cls.py is cabc.Hashable:
                for b in c.mro:
                    if "__hash__" in b.f:
                        return b.f["__hash__"] is not None
                    if "__eq__" in b.f:
                        return False
                    if b.py is not None:
                        return _py_sub(b.py, cls)
            return any(name in b.f for b in c.mro)
    return False


def isinst(v: Any, cls: Any) -> bool:
    if isinstance(cls, tuple):
        for c in cls:
            if isinst(v, c):
                return True
        return False
    if not isinstance(cls, ClassV):
        return undecided(f"isinstance(…, {cls!r})")
    if isinstance(v, Sym):
        if cls is OBJECT:
            return True
        ks = S.kinds(v.term)
        if not ks <= set(_KIND_PY):
            return undecided(f"isinstance({v!r}, {cls.name})")
        yes = frozenset(k for k in ks if _py_sub(_KIND_PY[k], cls))
        return S.is_kind(v.term, yes) if yes else False
    if isinstance(v, Opaque):
        return any(cls in c.mro for c in v.classes) or cls is OBJECT
    return subclass(typ(v), cls)


# --- truth, equality, ordering -------------------------------------------------------

NONEMPTY = dfa.conj(dfa.ALL, dfa.neg(dfa.EPS))


def truth(v: Any) -> bool:
    if isinstance(v, CONST):
        return bool(v)
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, Sym):
        ks = S.kinds(v.term)
        if not ks <= set(_KIND_PY):
            return undecided(f"truth of {v!r}")
        for k in sorted(ks):
            if S.is_kind(v.term, frozenset([k])):
                break
        if k == NULL:
            return False
        if k == BOOL:
            return S.decide(("istrue", v.term))
        if k == INT:
            return not S.eq0(v.term)
        if k == FLOAT:
            return S.decide(("nonzero", v.term))
        if k == STR:
            return S.in_lang(v.term, NONEMPTY)
        return not S.le0(("len", v.term))
    if isinstance(v, ListV) and "__bool__" not in _cls_names(v.cls):
        return segs_nonempty(getf(v, "#segs"))
    if isinstance(v, DictV):
        return segs_nonempty(getf(v, "#segs"))
    if isinstance(v, TupV):
        return segs_nonempty(v.segs)
    if isinstance(v, RangeV):
        return not S.le0(len_of(v)) if not isinstance(len_of(v), int) else len_of(v) > 0
    if isinstance(v, Inst):
        m = find_attr(v.cls, "__bool__")
        if m is not MISSING:
            return truth(call(bind(m, v), []))
        m = find_attr(v.cls, "__len__")
        if m is not MISSING:
            return truth(call(bind(m, v), []))
        return True
    if isinstance(v, Poison):
        return undecided("a variable of the last iteration")
    if isinstance(v, Opaque):
        if "__bool__" in v.attrs:
            return truth(call(v.attrs["__bool__"], []))
        return undecided(f"truth of {v!r}") if "__len__" in v.attrs else True
    if isinstance(v, Ext):
        return undecided(f"truth of {v!r}")
    return True


def _cls_names(c: ClassV) -> set:
    out: set = set()
    for b in c.mro:
        if b.py is None:
            out |= set(b.f)
    return out


def segs_nonempty(segs: Tuple) -> bool:
    for s in segs:
        if isinstance(s, Item):
            return True
        if isinstance(s, RaiseSeg):
            raise Raised(s.exc)
        if each_nonempty(s):
            return True
    return False


def each_nonempty(e: Each) -> bool:
    from . import loops

    return loops.exists_emission(e)


def eq_json_const(t: Any, c: Any) -> bool:
    """Python's `term == constant` for a JSON value or string term."""
    if isinstance(c, bool) or c is None or isinstance(c, (int, float)):
        ks = S.kinds(t)
        if not ks <= set(_KIND_PY):
            return undecided(f"{show(t)} == {c!r}")
        if c is None:
            return S.is_kind(t, frozenset([NULL]))
        num = frozenset([INT, FLOAT, BOOL])
        if not S.is_kind(t, num):
            return False
        if S.is_kind(t, frozenset([BOOL])):
            if c == 1:
                return S.decide(("istrue", t))
            if c == 0:
                return not S.decide(("istrue", t))
            return False
        if S.is_kind(t, KINT):
            if c != c or c in (float("inf"), float("-inf")) or c != int(c):
                return False
            return S.eq0(ladd(t, -int(c)))
        return S.decide(("floateq", t, float(c)))
    if isinstance(c, str):
        if not S.is_kind(t, KSTR):
            return False
        return S.in_lang(t, dfa.lit(c))
    return False


def _tkey(t: Any) -> str:
    return repr(t)


def eq(a: Any, b: Any) -> bool:
    """Python's `a == b`."""
    if a is b and not isinstance(a, (Ext, Poison)):
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        return undecided("a variable of the last iteration")
    ca, cb = isinstance(a, CONST), isinstance(b, CONST)
    if ca and cb:
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return eq_terms(a.term, b.term)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and isinstance(y, CONST):
            return eq_json_const(x.term, y)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Inst):
            m = find_attr(x.cls, "__eq__")
            if m is not MISSING:
                r = call(bind(m, x), [y])
                return truth(r)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
        return eq_segs(tup_segs(a), tup_segs(b))
    if isinstance(a, ListV) and isinstance(b, ListV):
        sa, sb = _setlike(a), _setlike(b)
        if sa != sb:
            return False
        if sa:
            ia, ib = items_of(a), items_of(b)
            return all(contains(b, x) for x in ia) and all(contains(a, x) for x in ib)
        return eq_segs(getf(a, "#segs"), getf(b, "#segs"))
    if isinstance(a, DictV) and isinstance(b, DictV):
        ia, ib = items_of(a, "#segs"), items_of(b, "#segs")
        if len(ia) != len(ib):
            return False
        for k, v in ia:
            w = dict_find(b, k)
            if w is MISSING or not eq(v, w):
                return False
        return True
    if isinstance(a, RegexV) and isinstance(b, RegexV):
        return eq(a.pattern, b.pattern) and a.flags == b.flags
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return eq(a.start, b.start) and eq(a.stop, b.stop) and eq(a.step, b.step)
    if isinstance(a, RangeV) or isinstance(b, RangeV):
        return undecided("equality of ranges")
    if isinstance(a, Ext) or isinstance(b, Ext):
        return undecided(f"{a!r} == {b!r}")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym):
            if isinstance(y, (ListV, DictV)) and not _setlike(y):
                want = LIST if isinstance(y, ListV) else DICT
                ks = S.kinds(x.term)
                if want not in ks:
                    return False
                return undecided(f"{x!r} == {y!r}")
            return False
    return False


def _setlike(v: ListV) -> bool:
    return subclass(v.cls, SETC) or subclass(v.cls, pyclass(frozenset))


def eq_segs(sa: Tuple, sb: Tuple) -> bool:
    if all(isinstance(s, Item) for s in sa) and all(isinstance(s, Item) for s in sb):
        return len(sa) == len(sb) and all(eq(x.v, y.v) for x, y in zip(sa, sb))
    if segs_same(sa, sb):
        return True
    from . import loops

    return loops.eq_segs(sa, sb)


def segs_same(sa: Any, sb: Any) -> bool:
    from .freeze import freeze

    try:
        return freeze(tuple(sa)) == freeze(tuple(sb))
    except Undecided:
        return False


def eq_terms(a: Any, b: Any) -> bool:
    a, b = strings.settle(a), strings.settle(b)
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return eq(mk(a), mk(b))
    if a == b:
        # (NaN isn't a JSON value.)
        return True
    ka, kb = S.kinds(a), S.kinds(b)
    if not (ka | kb) <= set(_KIND_PY):
        return undecided(f"{show(a)} == {show(b)}")
    num = frozenset([BOOL, INT, FLOAT])

    def cls(ks: Any) -> set:
        return {"num" if k in num else k for k in ks}

    both = cls(ka) & cls(kb)
    if not both:
        return False
    groups = [num if c == "num" else frozenset([c]) for c in sorted(both)]
    for g in groups:
        if S.is_kind(a, g):
            if not S.is_kind(b, g):
                return False
            break
    else:
        return False
    if g == frozenset([NULL]):
        return True
    if g == KSTR:
        ca, cb = S.str_const(a), S.str_const(b)
        if ca is not None:
            return S.in_lang(b, dfa.lit(ca))
        if cb is not None:
            return S.in_lang(a, dfa.lit(cb))
        if dfa.is_empty(dfa.conj(S.lang(a), S.lang(b))):
            return False
        r = str_injective(a, b)
        if r is not None:
            return r
    if g == num:
        if S.kinds(a) == KINT and S.kinds(b) == KINT:
            return S.eq0(ladd(a, b, -1))
        for k in (BOOL, INT, FLOAT):
            if S.is_kind(a, frozenset([k])):
                break
        for j in (BOOL, INT, FLOAT):
            if S.is_kind(b, frozenset([j])):
                break
        if k == j == INT:
            return S.eq0(ladd(a, b, -1))
        if k == j == BOOL:
            return S.decide(("istrue", a)) == S.decide(("istrue", b))
        if BOOL in (k, j):
            t, o = (a, b) if k == BOOL else (b, a)
            return eq_json_const(o, 1 if S.decide(("istrue", t)) else 0)
    if S.effects:
        from . import mutate

        mutate.check_deep(a)
        mutate.check_deep(b)
    x, y = sorted((a, b), key=_tkey)
    return S.decide(("eq", x, y))


def str_injective(a: Any, b: Any) -> Optional[bool]:
    """Equality of two strings of the same shape."""
    r = strings.same_base(a, b)
    if r is not None:
        return r
    if a[0] == "strof" and b[0] == "strof":
        return S.eq0(ladd(a[1], b[1], -1))
    if a[0] == "cat" and b[0] == "cat" and len(a) == len(b):
        d = [(x, y) for x, y in zip(a[1:], b[1:]) if x != y]
        if len(d) == 1:
            x, y = d[0]
            if isinstance(x, str) and isinstance(y, str):
                return False
            return eq(mk(x), mk(y))
    return None


def enum_value(v: Any) -> Any:
    """The number or the string an enumeration's member is."""
    if type(v) is Inst and any(c.py is int or c.py is str for c in v.cls.mro):
        x = getf(v, "value")
        if x is not MISSING:
            return x
    return v


def compare_lt(a: Any, b: Any) -> bool:
    """Python's `a < b`."""
    if is_const(a) and is_const(b):
        return pycall(lambda: a < b)
    ta, tb = typ(a), typ(b)
    num = (pyclass(int), pyclass(bool), pyclass(float))
    if ta is STRC and tb is STRC:
        if eq(a, b):
            return False
        x, y = _term(a), _term(b)
        if _tkey(x) <= _tkey(y):
            return S.decide(("strlt", x, y))
        return not S.decide(("strlt", y, x))
    if ta in num and tb in num:
        if ta is pyclass(bool) and isinstance(a, Sym):
            a = int(S.decide(("istrue", a.term)))
            ta = pyclass(int)
        if tb is pyclass(bool) and isinstance(b, Sym):
            b = int(S.decide(("istrue", b.term)))
            tb = pyclass(int)
        if ta is not pyclass(float) and tb is not pyclass(float):
            # a < b  <=>  a - b + 1 <= 0
            return S.le0(ladd(ladd(_term(a), _term(b), -1), 1))
        if eq(a, b):
            return False
        x, y = _term(a), _term(b)
        if _tkey(x) <= _tkey(y):
            return S.decide(("numlt", x, y))
        return not S.decide(("numlt", y, x))
    if isinstance(a, Inst):
        m = find_attr(a.cls, "__lt__")
        if m is not MISSING:
            return truth(call(bind(m, a), [b]))
    if isinstance(b, Inst):
        m = find_attr(b.cls, "__gt__")
        if m is not MISSING:
            return truth(call(bind(m, b), [a]))
    if (enum_value(a) is not a or enum_value(b) is not b) and not (isinstance(a, Inst) and isinstance(b, Inst) and ta is not tb):
        return compare_lt(enum_value(a), enum_value(b))
    if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)) or (
        isinstance(a, ListV) and isinstance(b, ListV) and not _setlike(a) and not _setlike(b)
    ):
        xs, ys = pylib.known_items(a), pylib.known_items(b)
        for x, y in zip(xs, ys):
            if not eq(x, y):
                return compare_lt(x, y)
        return len(xs) < len(ys)
    if isinstance(a, (Inst, Sym)) or isinstance(b, (Inst, Sym)):
        if ta is not tb or ta in (DICTC, pyclass(type(None))):
            throw(TypeError, "'<' not supported")
    return undecided(f"{a!r} < {b!r}")


def _term(v: Any) -> Any:
    if isinstance(v, Sym):
        return v.term
    if isinstance(v, bool):
        return int(v)
    return v


# --- segments, iteration ---------------------------------------------------------------


def tup_segs(v: Any) -> Tuple:
    if isinstance(v, tuple):
        return tuple(Item(x) for x in v)
    return v.segs


def iter_segs(v: Any, is_async: bool = False) -> Tuple:
    """The segments of what iterating over _v_ produces (consuming an iterator)."""
    if isinstance(v, CoroV):
        throw(TypeError, "'coroutine' object is not iterable")
    if isinstance(v, IterV):
        if v.is_async != is_async:
            throw(TypeError, "not iterable this way")
        rem = getf(v, "#rem")
        if rem is None:
            setf(v, "#rem", ())
            rem = v.thunk()
        if isinstance(rem, Poison):
            return undecided("a partly consumed iterator")
        setf(v, "#rem", ())
        return tuple(rem)
    if isinstance(v, Inst) and not isinstance(v, (ListV, DictV)) or (
        isinstance(v, (ListV, DictV)) and _user_attr(v.cls, "__iter__")
    ):
        m = find_attr(v.cls, "__aiter__" if is_async else "__iter__")
        if m is not MISSING:
            it = call(bind(m, v), [])
            if isinstance(it, Inst) and not isinstance(it, ListV):
                nx = find_attr(it.cls, "__anext__" if is_async else "__next__")
                if nx is not MISSING:
                    out = []
                    for _ in range(200):
                        try:
                            out.append(Item(call(bind(nx, it), [])))
                        except Raised as e:
                            if e.exc.cls.py is StopIteration:
                                return tuple(out)
                            out.append(RaiseSeg(e.exc))
                            return tuple(out)
                    return undecided("a long iteration")
            return iter_segs(it, is_async)
    if is_async:
        throw(TypeError, "'async for' requires an object with __aiter__")
    if isinstance(v, (str, bytes)):
        return tuple(Item(c) for c in v)
    if isinstance(v, (tuple, TupV)):
        return tup_segs(v)
    if isinstance(v, ListV):
        return getf(v, "#segs")
    if isinstance(v, DictV):
        from . import loops

        return loops.map_segs(getf(v, "#segs"), lambda p: p[0])
    if isinstance(v, RangeV):
        return range_segs(v.lo, v.hi, v.step)
    if isinstance(v, Sym):
        t = v.term
        ks = S.kinds(t)
        if not ks <= set(_KIND_PY):
            return undecided(f"iteration over {v!r}")
        if S.is_kind(t, frozenset([LIST])):
            return list_segs(t)
        if S.is_kind(t, frozenset([DICT])):
            return dict_segs(t, lambda k, c: k)
        if S.is_kind(t, KSTR):
            c = S.str_const(t)
            if c is not None:
                return tuple(Item(x) for x in c)
            return undecided(f"iteration over the string {v!r}")
        throw(TypeError, "not iterable")
    if isinstance(v, Opaque):
        if "__iter__" in v.attrs:
            return iter_segs(call(v.attrs["__iter__"], []))
        return undecided(f"iteration over {v!r}")
    if isinstance(v, CONST):
        throw(TypeError, "not iterable")
    if isinstance(v, ClassV) and "#members" in v.f:
        return tuple(Item(x) for x in v.f["#members"])
    if isinstance(v, Inst):
        throw(TypeError, "not iterable")
    return undecided(f"iteration over {v!r}")


def newvar() -> Any:
    return ("var", S.depth + 1)


def range_dom(lo: Any, hi: Any, step: Any) -> Any:
    return ("range", lo, hi, step)


def list_segs(t: Any) -> Tuple:
    check_stale(t)
    var = newvar()
    dom = range_dom(0, ("len", origin(t)), 1)
    return (Each(dom, var, (((), (Item(Sym(("child", t, var))),)),)),)


def dict_segs(t: Any, f: Callable[[Any, Any], Any]) -> Tuple:
    check_stale(t)
    var = newvar()
    key = ("key", origin(t), var)
    dom = ("members", origin(t))
    return (Each(dom, var, (((), (Item(f(Sym(key), Sym(("child", t, key)))),)),)),)


def range_segs(lo: Any, hi: Any, step: Any) -> Tuple:
    if all(isinstance(x, int) for x in (lo, hi, step)):
        r = range(lo, hi, step)
        if len(r) > 500:
            return undecided("a long range")
        return tuple(Item(i) for i in r)
    lo, hi, step = _term(lo), _term(hi), _term(step)
    var = newvar()
    if step == -1:
        # Normalise: ordinal form keeps the order.
        return (Each(range_dom(lo, hi, -1), var, (((), (Item(mk(var)),)),)),)
    return (Each(range_dom(lo, hi, step), var, (((), (Item(mk(var)),)),)),)


def check_stale(t: Any) -> None:
    if S.effects:
        from . import mutate

        mutate.check_shallow(t)


def items_of(v: Any, field: str = "") -> List[Any]:
    """The elements of something whose length is known."""
    segs = getf(v, field) if field else iter_segs(v)
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(s.v)
        elif isinstance(s, RaiseSeg):
            raise Raised(s.exc)
        elif isinstance(s, Each) and not any(c[1] for c in s.cases):
            pass
        else:
            return undecided("an unknown number of elements")
    return out


def new_list(segs: Any = ()) -> ListV:
    return ListV(LISTC, segs)


def gen(thunk: Callable[[], Any], is_async: bool = False, name: str = "") -> IterV:
    return IterV(thunk, is_async, name)


def len_of(v: Any) -> Any:
    """len(v) as a constant or an integer term."""
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, Sym):
        t = v.term
        ks = S.kinds(t)
        if not ks <= set(_KIND_PY):
            return undecided(f"len of {v!r}")
        if not S.is_kind(t, frozenset([STR, LIST, DICT])):
            throw(TypeError, "object has no len()")
        if S.kinds(t) == KSTR:
            c = S.str_const(t)
            if c is not None:
                return len(c)
            if t[0] == "cat":
                n: Any = 0
                for p in t[1:]:
                    n = ladd(n, len_of(mk(p)))
                return n
        if S.effects:
            from . import mutate

            return mutate.length(t)
        return ("len", origin(t))
    if isinstance(v, (ListV, DictV)):
        m = _user_attr(v.cls, "__len__")
        if m:
            return _term(call(bind(m, v), []))
        return segs_len(getf(v, "#segs"))
    if isinstance(v, TupV):
        return segs_len(v.segs)
    if isinstance(v, RangeV):
        lo, hi, step = _term(v.lo), _term(v.hi), _term(v.step)
        if all(isinstance(x, int) for x in (lo, hi, step)):
            return len(range(lo, hi, step))
        if step == 1:
            d = ladd(hi, lo, -1)
            return 0 if S.le0(d) else d
        return undecided("the length of a range")
    if isinstance(v, Inst):
        m = find_attr(v.cls, "__len__")
        if m is not MISSING:
            return _term(call(bind(m, v), []))
        throw(TypeError, "object has no len()")
    if isinstance(v, Opaque) and "__len__" in v.attrs:
        return _term(call(v.attrs["__len__"], []))
    if isinstance(v, CONST):
        throw(TypeError, "object has no len()")
    return undecided(f"len of {v!r}")


def segs_len(segs: Tuple) -> Any:
    n: Any = 0
    for s in segs:
        if isinstance(s, Item):
            n = ladd(n, 1)
        elif isinstance(s, RaiseSeg):
            raise Raised(s.exc)
        else:
            n = ladd(n, dom_count(s))
    return n


def dom_count(e: Each) -> Any:
    if all(not c[1] for c in e.cases):
        return 0
    if len(e.cases) == 1 and not e.cases[0][0] and len(e.cases[0][1]) == 1:
        if isinstance(e.cases[0][1][0], Item):
            d = e.dom
            if d[0] == "range" and d[3] == 1:
                n = ladd(d[2], d[1], -1)
                if isinstance(n, int):
                    return max(n, 0)
                return 0 if S.le0(n) else n
            if d[0] == "members":
                return ("len", d[1])
            from . import loops

            if not loops.nonempty(d):
                return 0
            n = ("count", d)
            S.assume_le0(ladd(1, n, -1), True)
            return n
    from . import loops

    if not loops.exists_emission(e):
        return 0
    n = loops.count_term(e)
    S.assume_le0(ladd(1, n, -1), True)
    return n


# --- attributes ------------------------------------------------------------------------


def find_attr(cls: ClassV, name: str) -> Any:
    for c in cls.mro:
        v = c.f.get(name, MISSING)
        if v is not MISSING:
            return v
    return MISSING


def _user_attr(cls: ClassV, name: str) -> Any:
    for c in cls.mro:
        if c.py is not None:
            return None
        if name in c.f:
            return c.f[name]
    return None


def bind(m: Any, self: Any) -> Any:
    if isinstance(m, (FuncV, Builtin)):
        return BoundV(m, self)
    if isinstance(m, Wrap):
        if m.kind == "classmethod":
            return BoundV(m.func, typ(self))
        if m.kind == "staticmethod":
            return m.func
        return BoundV(m, self)
    return m


def getattr_(o: Any, name: str) -> Any:
    v = getattr_or(o, name)
    if v is MISSING:
        if isinstance(o, (Ext, Poison)):
            return undecided(f"{o!r}.{name}")
        throw(AttributeError, name)
    return v


def really_has(o: Any, name: str) -> bool:
    """Might there be an attribute that isn't modelled?"""
    if isinstance(o, (Inst, ClassV)):
        for c in (o if isinstance(o, ClassV) else o.cls).mro:
            if c.py is not None and hasattr(c.py, name):
                return True
            if c.py is None and type(c) is not ClassV:
                return True
        return False
    if isinstance(o, CONST):
        return hasattr(o, name)
    if isinstance(o, Sym):
        return any(k not in _KIND_PY or hasattr(_KIND_PY[k], name) for k in S.kinds(o.term))
    if isinstance(o, (tuple, TupV)):
        return hasattr(tuple, name)
    if isinstance(o, (FuncV, BoundV)):
        return hasattr(really_has, name)
    if isinstance(o, (SliceV, RangeV)):
        return hasattr(slice if isinstance(o, SliceV) else range, name)
    return True


def getattr_or(o: Any, name: str) -> Any:
    v = modelled_attr(o, name)
    if v is MISSING and really_has(o, name):
        return undecided(f"{name} of {o!r}")
    return v


def modelled_attr(o: Any, name: str) -> Any:
    if isinstance(o, Wrap) and o.kind == "property":
        if name in ("setter", "getter", "deleter"):

            def with_(a: List[Any], k: Any) -> Any:
                w = Wrap("property", a[0] if name == "getter" else o.func)
                w.setter = a[0] if name == "setter" else o.setter
                return w

            return Builtin(name, with_)
        if name in ("fget", "fset"):
            return o.func if name == "fget" else o.setter
    if isinstance(o, Builtin):
        v = pylib.EXTERNAL.get(f"{o.name}.{name}", MISSING)
        return v
    if isinstance(o, Inst):
        m = find_attr(o.cls, name)
        if isinstance(m, Wrap) and m.kind == "property":
            return call(m.func, [o])
        v = getf(o, name)
        if v is not MISSING:
            return v
        if m is not MISSING:
            return bind(m, o)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return undecided("__dict__")
        b = pylib.method(o, name)
        if b is not None:
            return b
        m = find_attr(o.cls, "__getattr__")
        if m is not MISSING:
            return call(bind(m, o), [name])
        return MISSING
    if isinstance(o, ClassV):
        m = find_attr(o, name)
        if m is not MISSING:
            if isinstance(m, Wrap):
                if m.kind == "classmethod":
                    return BoundV(m.func, o)
                if m.kind == "staticmethod":
                    return m.func
            return m
        if name in ("__name__", "__qualname__"):
            return o.name
        return pylib.class_attr(o, name)
    if isinstance(o, ModuleV):
        v = getf(o, name)
        if v is MISSING:
            sub = f"{o.name}.{name}"
            if sub in _modules or module_path(sub):
                return load(sub)
            return undecided(f"{o.name}.{name} is missing")
        return v
    if isinstance(o, Opaque):
        v = o.attrs.get(name, MISSING)
        if v is MISSING:
            if name == "__class__" and o.classes:
                return o.classes[0]
            for c in o.classes:
                m = find_attr(c, name)
                if m is not MISSING and isinstance(m, CONST):
                    return m
            if name.startswith("__"):
                return MISSING
            return undecided(f"{o!r}.{name}")
        return v
    if isinstance(o, Ext):
        return pylib.ext_attr(o, name)
    if isinstance(o, (FuncV, BoundV)):
        f = o
        while isinstance(f, BoundV):
            f = f.func
        if name in ("__name__", "__qualname__") and isinstance(f, FuncV):
            return f.name
        if name == "__self__" and isinstance(o, BoundV):
            return o.self
        if isinstance(f, FuncV) and name in f.f:
            return f.f[name]
        return MISSING
    if isinstance(o, SuperV):
        for c in o.mro:
            m = c.f.get(name, MISSING)
            if m is not MISSING:
                if isinstance(m, Wrap) and m.kind == "property":
                    return call(m.func, [o.obj])
                if isinstance(o.obj, ClassV) and isinstance(m, Wrap):
                    return BoundV(m.func, o.obj)
                return bind(m, o.obj)
        b = pylib.super_method(o.obj, name)
        if b is not None:
            return b
        return MISSING
    if isinstance(o, (SliceV, RangeV)) and name in ("start", "stop", "step"):
        if isinstance(o, RangeV):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        return getattr(o, name)
    if isinstance(o, Poison):
        return undecided("a variable of the last iteration")
    if isinstance(o, Wrap) and name == "setter":
        return Builtin("setter", lambda a, k: o)
    if name == "__class__" and (o is None or isinstance(o, (bool, int, float, str, bytes))):
        return pyclass(type(o))
    b = pylib.method(o, name)
    if b is not None:
        return b
    return MISSING


class SuperV:
    def __init__(self, mro: List[ClassV], obj: Any):
        self.mro = mro
        self.obj = obj


def setattr_(o: Any, name: str, v: Any) -> None:
    if isinstance(o, (Inst, ClassV, ModuleV, FuncV)):
        if isinstance(o, Inst):
            m = find_attr(o.cls, name)
            if isinstance(m, Wrap) and m.kind == "property":
                if m.setter is None:
                    throw(AttributeError, name)
                call(m.setter, [o, v])
                return
            m = find_attr(o.cls, "__setattr__")
            if m is not MISSING:
                call(bind(m, o), [name, v])
                return
        setf(o, name, v)
        return
    if isinstance(o, Opaque):
        S.effects.append(("setattr", o.term, name, v))
        return
    undecided(f"assignment to {o!r}.{name}")


# --- calls ------------------------------------------------------------------------------

_stack: List[Any] = []
MAX_DEPTH = 400
SEEN: set = set()


class Mode:
    # Functions that are deep equality of JSON values.
    equalities: set = set()
    # Are calls that aren't recursive looked into?
    proving = False
    """How recursion is treated."""

    bound: Optional[int] = 60  # None: coinductively; n: at most n levels


def call(f: Any, args: List[Any], kwargs: Optional[Dict[str, Any]] = None) -> Any:
    kwargs = kwargs or {}
    S.steps += 1
    if S.steps > S.max_steps:
        raise Budget("too many steps")
    if not S.steps & 255 and time.time() > S.deadline:
        raise Budget("time")
    if isinstance(f, FuncV):
        return call_func(f, args, kwargs)
    if isinstance(f, BoundV):
        g = f.func
        if isinstance(g, Wrap):
            return undecided("a wrapped method")
        return call(g, [f.self, *args], kwargs)
    if isinstance(f, Builtin):
        return f.fn(args, kwargs)
    if isinstance(f, ClassV):
        return instantiate(f, args, kwargs)
    if isinstance(f, Inst):
        m = find_attr(f.cls, "__call__")
        if m is not MISSING:
            return call(bind(m, f), args, kwargs)
        throw(TypeError, "not callable")
    if isinstance(f, Opaque) and "__call__" in f.attrs:
        return call(f.attrs["__call__"], args, kwargs)
    if isinstance(f, Ext):
        return pylib.call_ext(f, args, kwargs)
    if isinstance(f, CONST) or isinstance(f, tuple):
        throw(TypeError, "not callable")
    if isinstance(f, Wrap) and f.kind == "staticmethod":
        return call(f.func, args, kwargs)
    return undecided(f"call of {f!r}")


def bind_args(f: FuncV, args: List[Any], kwargs: Dict[str, Any]) -> Dict[str, Any]:
    a = f.node.args
    out: Dict[str, Any] = {}
    pos = [x.arg for x in a.posonlyargs + a.args]
    kwargs = dict(kwargs)
    if len(args) > len(pos):
        if not a.vararg:
            throw(TypeError, f"{f.name}() takes {len(pos)} positional arguments")
        out[a.vararg.arg] = tuple(args[len(pos) :])
        args = args[: len(pos)]
    elif a.vararg:
        out[a.vararg.arg] = ()
    for n, v in zip(pos, args):
        out[n] = v
    for n in pos[len(args) :]:
        if n in kwargs:
            out[n] = kwargs.pop(n)
        elif n in f.defaults:
            out[n] = f.defaults[n]
        else:
            throw(TypeError, f"{f.name}() missing argument {n!r}")
    for x in a.kwonlyargs:
        n = x.arg
        if n in kwargs:
            out[n] = kwargs.pop(n)
        elif n in f.kwdefaults:
            out[n] = f.kwdefaults[n]
        else:
            throw(TypeError, f"{f.name}() missing keyword argument {n!r}")
    if a.kwarg:
        d = DictV(DICTC, tuple(Item((k, v)) for k, v in kwargs.items()))
        out[a.kwarg.arg] = d
    elif kwargs:
        throw(TypeError, f"{f.name}() got an unexpected keyword argument")
    return out


def call_func(f: FuncV, args: List[Any], kwargs: Dict[str, Any]) -> Any:
    if is_const_fn(f):
        pass
    bound = bind_args(f, args, kwargs)
    node = f.node
    is_async = isinstance(node, ast.AsyncFunctionDef)
    if f.isgen:
        r = recursion(f, bound, "gen")
        if r is not None:
            segs = r
            return gen(lambda: segs, is_async, f.name)

        def run_gen() -> Tuple:
            fr = Frame(f.closure, f.module, f)
            fr.f.update(bound)
            fr.f["#out"] = ()
            push(f, bound)
            try:
                exec_body(node.body, fr)
            except Raised as e:
                appendf(fr, "#out", [RaiseSeg(e.exc)])
            finally:
                _stack.pop()
            return fr.f["#out"]

        return gen(run_gen, is_async, f.name)
    if is_async:
        return CoroV(lambda: run_plain(f, bound))
    return run_plain(f, bound)


def json_equality(f: FuncV, a: Any, b: Any) -> Optional[bool]:
    """A call of a function known to be deep equality of JSON values, if it's about
    two unknown containers."""
    if Mode.proving and not any(n is f.node for n, _, _ in _stack):
        return None
    both = frozenset([LIST, DICT])
    if Mode.proving:
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.term == b.term:
                return True
            return S.decide(("jeq", *sorted((a.term, b.term), key=repr)))
        return None
    for x in (a, b):
        if not isinstance(x, Sym) or not S.kinds(x.term) <= set(_KIND_PY) or not S.kinds(x.term) & both:
            return None
    for x in (a, b):
        if not S.is_kind(x.term, both):
            return None
    d = frozenset([DICT])
    if S.is_kind(a.term, d) != S.is_kind(b.term, d):
        return False
    from .cmp import uncopy

    if S.effects:
        from . import mutate

        mutate.check_deep(a.term)
        mutate.check_deep(b.term)
    x, y = uncopy(a.term), uncopy(b.term)
    if x == y:
        return True
    return S.decide(("jeq", *sorted((x, y), key=repr)))


def is_const_fn(f: FuncV) -> bool:
    return False


def run_plain(f: FuncV, bound: Dict[str, Any]) -> Any:
    if f.node in Mode.equalities and len(bound) == 2:
        r = json_equality(f, *bound.values())
        if r is not None:
            return r
    r = recursion(f, bound, "val")
    if r is not None:
        return r[0]
    fr = Frame(f.closure, f.module, f)
    fr.f.update(bound)
    push(f, bound)
    try:
        if isinstance(f.node, ast.Lambda):
            return ev(f.node.body, fr)
        ctl = exec_body(f.node.body, fr)
        if isinstance(ctl, tuple):
            return ctl[1]
        return None
    finally:
        _stack.pop()


def push(f: FuncV, bound: Dict[str, Any]) -> None:
    if len(_stack) >= MAX_DEPTH:
        raise Undecided("deep recursion")
    _stack.append((f.node, S.depth, bound))
    SEEN.add((f.module.name, f.qualname))


def recursion(f: FuncV, bound: Dict[str, Any], kind: str) -> Any:
    """A summary of a recursive call made for an element of an unknown collection."""
    n = 0
    first = None
    for node, d, _ in _stack:
        if node is f.node:
            n += 1
            if first is None and d < S.depth:
                first = d
    if first is None:
        return None
    if Mode.bound is not None:
        if n > Mode.bound:
            raise Undecided(f"deep recursion in {f.qualname}")
        return None
    from .freeze import freeze

    key = (f.node, first)
    names = [k for k in bound if k != "self"]
    rid = S.rec_ids.get(id(f.node))
    if rid is None:
        rid = S.rec_ids[id(f.node)] = len(S.rec_ids)
    del key
    term = ("rec", rid, tuple(freeze(bound[k]) for k in names))
    S.notes["rec"] = S.notes.get("rec", 0) + 1
    if kind == "gen":
        var = newvar()
        return (Each(("stream", term), var, (((), (Item(Sym(("elem", term, var))),)),)),)
    if isinstance(f.node, ast.Lambda):
        return undecided("recursive lambda")
    rk = rec_result(f)
    if rk == "bool":
        return (S.decide(term),)
    return undecided(f"recursion in {f.name}")


def rec_result(f: FuncV) -> str:
    ann = getattr(f.node, "returns", None)
    if ann is not None and isinstance(ann, ast.Name) and ann.id == "bool":
        return "bool"
    if isinstance(ann, ast.Constant) and ann.value == "bool":
        return "bool"
    return "unknown"


def instantiate(c: ClassV, args: List[Any], kwargs: Dict[str, Any]) -> Any:
    if c.py is not None and not issubclass(c.py, BaseException):
        return pylib.construct(c, args, kwargs)
    if "#members" in c.f:
        for m in c.f["#members"]:
            if eq(getf(m, "value"), args[0]):
                return m
        throw(ValueError, "not a member")
    nw = _user_attr(c, "__new__")
    if nw:
        return undecided(f"{c.name}.__new__")
    if subclass(c, DICTC):
        o: Any = DictV(c)
    elif subclass(c, LISTC) or subclass(c, pyclass(__import__("collections").deque)):
        o = ListV(c)
    elif subclass(c, TUPLEC):
        return pylib.construct_namedtuple(c, args, kwargs)
    else:
        o = Inst(c)
    init = find_attr(c, "__init__")
    if subclass(c, EXC):
        o.f["args"] = tuple(args)
        o.f["__cause__"] = None
    if init is not MISSING:
        call(bind(init, o), args, kwargs)
    elif isinstance(o, (ListV, DictV)):
        pylib.builtin_init(o, args, kwargs)
    elif (args or kwargs) and not subclass(c, EXC):
        throw(TypeError, f"{c.name}() takes no arguments")
    return o


# --- modules -----------------------------------------------------------------------------

_modules: Dict[str, ModuleV] = {}
analysed: Dict[str, int] = {}


def module_path(name: str) -> Optional[str]:
    parts = name.split(".")
    roots = {"jsonpath": REPO, "spec": os.path.dirname(SPEC)}
    if parts[0] not in roots:
        return None
    base = os.path.join(roots[parts[0]], *parts)
    if os.path.isdir(base):
        return os.path.join(base, "__init__.py")
    if os.path.exists(base + ".py"):
        return base + ".py"
    return None


def load(name: str) -> Any:
    m = _modules.get(name)
    if m is not None:
        return m
    if name == "argparse":
        name = "spec.argparsing"
        if name in _modules:
            return _modules[name]
    path = module_path(name)
    if path is None:
        return Ext(name)
    if "." in name:
        parent = name.rsplit(".", 1)[0]
        if parent not in _modules:
            load(parent)
            if name in _modules:
                return _modules[name]
    with open(path, encoding="utf-8") as fd:
        src = fd.read()
    tree = ast.parse(src, path)
    m = ModuleV(name, path, tree)
    m.stamp = 0
    _modules[name] = m
    m.f["__name__"] = name
    fr = Frame(None, m)
    fr.f = m.f
    fr.stamp = 0
    exec_module(tree.body, fr)
    if "." in name:
        par, leaf = name.rsplit(".", 1)
        _modules[par].f.setdefault(leaf, m)
    return m


def resolve_import(fr: Frame, node: ast.ImportFrom) -> str:
    if not node.level:
        return node.module or ""
    m = fr.module
    parts = m.name.split(".")
    if not m.path.endswith("__init__.py"):
        parts = parts[:-1]
    parts = parts[: len(parts) - (node.level - 1)]
    if node.module:
        parts.append(node.module)
    return ".".join(parts)


# --- statements ---------------------------------------------------------------------------


def exec_body(body: List[ast.stmt], fr: Frame) -> Any:
    for st in body:
        ctl = _STMT[type(st)](st, fr)
        if ctl:
            return ctl
    return NORMAL


def exec_module(body: List[ast.stmt], fr: Frame) -> None:
    """The statements of a module or a class.

    What can't be analysed makes what it defines unknown, and nothing else.
    """
    for st in body:
        try:
            _STMT[type(st)](st, fr)
        except Undecided as e:
            names = bound_names(st)
            if not names:
                raise
            for x in names:
                setf(fr, x, Unknown(str(e)))


def bound_names(st: ast.stmt) -> List[str]:
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
        return [t.id for t in st.targets]  # type: ignore
    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        return [st.target.id]
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split(".")[0] for a in st.names]
    return []


def s_expr(n: ast.Expr, fr: Frame) -> Any:
    if isinstance(n.value, ast.Constant):
        return NORMAL
    ev(n.value, fr)
    return NORMAL


def s_assign(n: ast.Assign, fr: Frame) -> Any:
    v = ev(n.value, fr)
    for t in n.targets:
        assign(t, v, fr)
    return NORMAL


def s_annassign(n: ast.AnnAssign, fr: Frame) -> Any:
    if n.value is not None:
        assign(n.target, ev(n.value, fr), fr)
    elif isinstance(n.target, ast.Name) and isinstance(fr, ClassFrame):
        fr.f.setdefault("#annotations", []).append(n.target.id)
    if isinstance(fr, ClassFrame) and isinstance(n.target, ast.Name):
        if "ClassVar" not in ast.dump(n.annotation):
            fr.f.setdefault("#fields", []).append(n.target.id)
    return NORMAL


def s_augassign(n: ast.AugAssign, fr: Frame) -> Any:
    t = n.target
    if isinstance(t, ast.Name):
        old = lookup(t.id, fr)
        put = lambda v: store(t.id, v, fr)  # noqa: E731
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr)
        old = getattr_(o, t.attr)
        put = lambda v: setattr_(o, t.attr, v)  # noqa: E731
    else:
        o = ev(t.value, fr)
        k = ev(t.slice, fr)
        old = pylib.getitem(o, k)
        put = lambda v: pylib.setitem(o, k, v)  # noqa: E731
    r = ev(n.value, fr)
    if isinstance(old, ListV) and isinstance(n.op, ast.Add) and not _setlike(old):
        appendf(old, "#segs", pylib.strip_raise(iter_segs(r)))
        put(old)
        return NORMAL
    put(binop(n.op, old, r))
    return NORMAL


def s_return(n: ast.Return, fr: Frame) -> Any:
    return (RETURN, ev(n.value, fr) if n.value is not None else None)


def s_if(n: ast.If, fr: Frame) -> Any:
    return exec_body(n.body if truth(ev(n.test, fr)) else n.orelse, fr)


def s_for(n: Any, fr: Frame) -> Any:
    from . import loops

    it = ev(n.iter, fr)
    if isinstance(it, Inst) and isinstance(n, ast.For):
        it = pylib.iter_of(it)
    segs = iter_segs(it, isinstance(n, ast.AsyncFor))

    def body(v: Any) -> Any:
        assign(n.target, v, fr)
        return exec_body(n.body, fr)

    ctl = loops.run(segs, body, it if isinstance(it, IterV) else None)
    if ctl == BREAK:
        return NORMAL
    if isinstance(ctl, tuple):
        return ctl
    return exec_body(n.orelse, fr)


def s_while(n: ast.While, fr: Frame) -> Any:
    from . import loops

    conv = loops.while_as_range(n, fr)
    if conv is not None:
        return conv()
    start = S.layers[-1].pos if S.layers else 0
    for i in range(400):
        before = S.layers[-1].pos if S.layers else 0
        if not truth(ev(n.test, fr)):
            return exec_body(n.orelse, fr)
        after = S.layers[-1].pos if S.layers else 0
        if after > before and i > 12:
            return undecided("a loop with an unknown number of iterations")
        ctl = exec_body(n.body, fr)
        if ctl == BREAK:
            return NORMAL
        if isinstance(ctl, tuple):
            return ctl
    if start == (S.layers[-1].pos if S.layers else 0):
        raise Endless("a loop without end")
    return undecided("a loop with an unknown number of iterations")


def s_raise(n: ast.Raise, fr: Frame) -> Any:
    if n.exc is None:
        cur = fr.f.get("#exc")
        f = fr
        while cur is None and f.parent is not None:
            f = f.parent
            cur = f.f.get("#exc")
        if cur is None:
            return throw(RuntimeError, "No active exception to reraise")
        raise Raised(cur)
    e = ev(n.exc, fr)
    if isinstance(e, ClassV):
        e = call(e, [])
    if not isinstance(e, Inst) or not subclass(e.cls, EXC):
        return undecided(f"raise {e!r}")
    if n.cause is not None:
        c = ev(n.cause, fr)
        e.f["__cause__"] = c
    raise Raised(e, where=f"{getattr(fr.module, 'name', '?')}:{n.lineno}")


def s_try(n: ast.Try, fr: Frame) -> Any:
    ctl: Any = NORMAL
    try:
        try:
            ctl = exec_body(n.body, fr)
        except Raised as r:
            h = handler(n.handlers, r, fr)
            if h is None:
                raise
            if h.name:
                store(h.name, r.exc, fr)
            saved = fr.f.get("#exc")
            fr.f["#exc"] = r.exc
            try:
                ctl = exec_body(h.body, fr)
            finally:
                fr.f["#exc"] = saved
        else:
            if not ctl:
                ctl = exec_body(n.orelse, fr)
    except Raised:
        if n.finalbody:
            c = exec_body(n.finalbody, fr)
            if c:
                return c
        raise
    if n.finalbody:
        c = exec_body(n.finalbody, fr)
        if c:
            return c
    return ctl


def handler(hs: List[ast.ExceptHandler], r: Raised, fr: Frame) -> Any:
    for h in hs:
        if h.type is None:
            return h
        c = ev(h.type, fr)
        for x in c if isinstance(c, tuple) else (c,):
            if not isinstance(x, ClassV):
                return undecided(f"except {x!r}")
            if subclass(r.exc.cls, x):
                return h
    return None


def s_with(n: Any, fr: Frame) -> Any:
    return with_items(n, 0, fr)


def with_items(n: Any, i: int, fr: Frame) -> Any:
    if i == len(n.items):
        return exec_body(n.body, fr)
    it = n.items[i]
    m = ev(it.context_expr, fr)
    if isinstance(m, GenManager):
        return with_gen(m, n, i, fr)
    if isinstance(m, Suppress):
        if it.optional_vars is not None:
            assign(it.optional_vars, m.value, fr)
        try:
            return with_items(n, i + 1, fr)
        except Raised as r:
            if any(subclass(r.exc.cls, c) for c in m.classes):
                return NORMAL
            raise
    if isinstance(n, ast.AsyncWith):
        return undecided("async with")
    v = call(getattr_(m, "__enter__"), [])
    if it.optional_vars is not None:
        assign(it.optional_vars, v, fr)
    try:
        ctl = with_items(n, i + 1, fr)
    except Raised as r:
        v = call(getattr_(m, "__exit__"), [r.exc.cls, r.exc, None])
        if truth(v):
            return NORMAL
        raise
    call(getattr_(m, "__exit__"), [None, None, None])
    return ctl


def with_gen(m: "GenManager", n: Any, i: int, fr: Frame) -> Any:
    """The body is run where the generator yields."""
    f = m.func
    bound = bind_args(f, m.args, m.kwargs)
    gf = Frame(f.closure, f.module, f)
    gf.f.update(bound)
    gf.f["#out"] = ()
    done: List[Any] = []

    def at_yield(v: Any) -> None:
        if done:
            return undecided("a context manager that yields twice")
        done.append(NORMAL)
        if n.items[i].optional_vars is not None:
            assign(n.items[i].optional_vars, v, fr)
        done[0] = with_items(n, i + 1, fr)
        return None

    gf.f["#on_yield"] = at_yield
    push(f, bound)
    try:
        exec_body(f.node.body, gf)
    finally:
        _stack.pop()
    if not done:
        throw(RuntimeError, "generator didn't yield")
    return done[0]


class Suppress:
    def __init__(self, classes: List[ClassV], value: Any = None):
        self.classes = classes
        self.value = value


class GenManager:
    """What a function decorated with contextmanager returns."""

    def __init__(self, func: FuncV, args: List[Any], kwargs: Dict[str, Any]):
        self.func = func
        self.args = args
        self.kwargs = kwargs


def s_match(n: Any, fr: Frame) -> Any:
    v = ev(n.subject, fr)
    for c in n.cases:
        if matches(c.pattern, v, fr) and (c.guard is None or truth(ev(c.guard, fr))):
            return exec_body(c.body, fr)
    return NORMAL


SELF_MATCHED = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def matches(p: Any, v: Any, fr: Frame) -> bool:
    """Does a value match a pattern?"""
    if isinstance(p, ast.MatchValue):
        return eq(v, ev(p.value, fr))
    if isinstance(p, ast.MatchSingleton):
        return is_same(v, p.value)
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not matches(p.pattern, v, fr):
            return False
        if p.name is not None:
            store(p.name, v, fr)
        return True
    if isinstance(p, ast.MatchOr):
        return any(matches(x, v, fr) for x in p.patterns)
    if isinstance(p, ast.MatchSequence):
        if isinst(v, STRC) or isinst(v, pyclass(bytes)) or not isinst(v, pyclass(cabc.Sequence)):
            return False
        size = pylib.mk(len_of(v))
        star = [j for j, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
        k = len(p.patterns)
        if star:
            if compare(ast.Lt(), size, k - 1):
                return False
        elif not eq(size, k):
            return False
        for j, x in enumerate(p.patterns):
            if isinstance(x, ast.MatchStar):
                if x.name is not None:
                    part = pylib.getitem(v, pylib.SliceV(j, None if j == k - 1 else j + 1 - k, None))
                    store(x.name, call(pyclass(list), [part]), fr)
            elif not matches(x, pylib.getitem(v, j - k if star and j > star[0] else j), fr):
                return False
        return True
    if isinstance(p, ast.MatchMapping):
        if not isinst(v, pyclass(cabc.Mapping)):
            return False
        keys = [ev(x, fr) for x in p.keys]
        for key, x in zip(keys, p.patterns):
            if not contains(v, key) or not matches(x, pylib.getitem(v, key), fr):
                return False
        if p.rest is not None:
            rest = call(DICTC, [v])
            for key in keys:
                pylib.delitem(rest, key)
            store(p.rest, rest, fr)
        return True
    if isinstance(p, ast.MatchClass):
        c = ev(p.cls, fr)
        if not isinst(v, c):
            return False
        if p.patterns:
            if isinstance(c, ClassV) and c.py in SELF_MATCHED:
                if not matches(p.patterns[0], v, fr):
                    return False
            else:
                names = pylib.known_items(getattr_(c, "__match_args__"))
                for name, x in zip(names, p.patterns):
                    if not matches(x, getattr_(v, name), fr):
                        return False
        for name, x in zip(p.kwd_attrs, p.kwd_patterns):
            got = getattr_or(v, name)
            if got is MISSING or not matches(x, got, fr):
                return False
        return True
    return undecided("a pattern")


def assigned_names(node: Any) -> None:
    return None


def s_funcdef(n: Any, fr: Frame) -> Any:
    f = make_func(n, fr, n.name)
    v: Any = f
    for d in reversed(n.decorator_list):
        v = decorate(d, v, fr)
    store(n.name, v, fr)
    return NORMAL


def decorate(d: ast.expr, v: Any, fr: Frame) -> Any:
    dec = ev(d, fr)
    if isinstance(dec, ClassV) and dec.py in (property, staticmethod, classmethod):
        return Wrap(dec.py.__name__, v)
    return call(dec, [v])


_gen_cache: Dict[Any, bool] = {}


def is_generator(n: Any) -> bool:
    r = _gen_cache.get(n)
    if r is None:
        r = False
        todo = list(n.body) if isinstance(n.body, list) else [n.body]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(x))
        _gen_cache[n] = r
    return r


def make_func(n: Any, fr: Frame, name: str) -> FuncV:
    a = n.args
    pos = a.posonlyargs + a.args
    defaults = {}
    for p, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
        defaults[p.arg] = ev(d, fr)
    kwd = {}
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            kwd[p.arg] = ev(d, fr)
    closure = fr
    while isinstance(closure, ClassFrame):
        closure = closure.parent
    if closure is not None and closure.f is closure.module.f:
        closure = None
    f = FuncV(n, fr.module, closure, defaults, kwd, name, is_generator(n))
    if isinstance(fr, ClassFrame):
        f.cls = fr.cls
    elif fr.func is not None:
        f.cls = fr.func.cls
    key = f"{getattr(fr.module, 'name', '?')}:{name}"
    analysed[key] = analysed.get(key, 0)
    return f


class ClassFrame(Frame):
    __slots__ = ("cls",)


def s_classdef(n: ast.ClassDef, fr: Frame) -> Any:
    bases = []
    record = False
    for b in n.bases:
        v = ev(b, fr)
        if isinstance(v, Ext) and v.name == "typing.NamedTuple":
            record = True
            bases.append(TUPLEC)
        elif isinstance(v, ClassV):
            bases.append(v)
        elif isinstance(v, Ext):
            continue
        else:
            return undecided(f"base class {v!r}")
    c = ClassV(n.name, bases or [OBJECT], fr.module, n)
    cf = ClassFrame(fr, fr.module, fr.func)
    cf.cls = c
    exec_module(n.body, cf)
    c.f.update(cf.f)
    if record:
        from . import synth

        fields = c.f.get("#fields", [])
        synth.namedtuple(c, list(fields), {x: c.f[x] for x in fields if x in c.f})
    if any(b.py is not None and b.py.__name__ in ("Enum", "IntEnum", "Flag") for b in c.mro):
        members = []
        for k, v in list(c.f.items()):
            if k.startswith("_") or k.startswith("#") or isinstance(v, (FuncV, Wrap)):
                continue
            m = Inst(c)
            m.f["name"] = k
            m.f["value"] = len(members) + 1 if isinstance(v, Ext) else v
            c.f[k] = m
            members.append(m)
        if members:
            c.f["#members"] = members
    v: Any = c
    for d in reversed(n.decorator_list):
        v = decorate(d, v, fr)
    store(n.name, v, fr)
    return NORMAL


def s_import(n: ast.Import, fr: Frame) -> Any:
    for a in n.names:
        if a.asname:
            store(a.asname, load(a.name), fr)
        else:
            store(a.name.split(".")[0], load(a.name.split(".")[0]), fr)
    return NORMAL


def s_importfrom(n: ast.ImportFrom, fr: Frame) -> Any:
    name = resolve_import(fr, n)
    for a in n.names:
        m = load(name)
        if isinstance(m, ModuleV):
            if a.name == "*":
                for k, v in list(m.f.items()):
                    if not k.startswith("_"):
                        store(k, v, fr)
                continue
            if a.name in m.f:
                v = m.f[a.name]
            elif module_path(f"{name}.{a.name}"):
                v = load(f"{name}.{a.name}")
            else:
                v = LazyName(m, a.name)
        else:
            v = pylib.external(f"{name}.{a.name}")
        store(a.asname or a.name, v, fr)
    return NORMAL


class LazyName:
    """A name imported in a cycle of imports."""

    def __init__(self, module: ModuleV, name: str):
        self.module = module
        self.name = name


def s_assert(n: ast.Assert, fr: Frame) -> Any:
    if not truth(ev(n.test, fr)):
        throw(AssertionError)
    return NORMAL


def s_delete(n: ast.Delete, fr: Frame) -> Any:
    for t in n.targets:
        if isinstance(t, ast.Name):
            delf(fr, t.id)
        elif isinstance(t, ast.Subscript):
            pylib.delitem(ev(t.value, fr), ev(t.slice, fr))
        else:
            return undecided("del")
    return NORMAL


def s_global(n: Any, fr: Frame) -> Any:
    (fr.globals_ if isinstance(n, ast.Global) else fr.nonlocals).update(n.names)
    return NORMAL


def s_unsupported(n: Any, fr: Frame) -> Any:
    return undecided(f"statement {type(n).__name__}")


class _Stmts(dict):
    def __missing__(self, k: Any) -> Any:
        return s_unsupported


_STMT = _Stmts(
    {
        ast.Expr: s_expr,
        ast.Assign: s_assign,
        ast.AnnAssign: s_annassign,
        ast.AugAssign: s_augassign,
        ast.Return: s_return,
        ast.If: s_if,
        ast.For: s_for,
        ast.AsyncFor: s_for,
        ast.While: s_while,
        ast.Raise: s_raise,
        ast.Try: s_try,
        ast.With: s_with,
        ast.AsyncWith: s_with,
        ast.Match: s_match,
        ast.FunctionDef: s_funcdef,
        ast.AsyncFunctionDef: s_funcdef,
        ast.ClassDef: s_classdef,
        ast.Import: s_import,
        ast.ImportFrom: s_importfrom,
        ast.Assert: s_assert,
        ast.Delete: s_delete,
        ast.Global: s_global,
        ast.Nonlocal: s_global,
        ast.Pass: lambda n, fr: NORMAL,
        ast.Break: lambda n, fr: BREAK,
        ast.Continue: lambda n, fr: CONTINUE,
    }
)


def assign(t: ast.expr, v: Any, fr: Frame) -> None:
    if isinstance(t, ast.Name):
        store(t.id, v, fr)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
        pylib.setitem(ev(t.value, fr), ev(t.slice, fr), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Sym) and v.term[0] == "pair":
            vals: Any = [mk(x) for x in v.term[1:]]
        else:
            vals = pylib.known_items(v)
        if stars:
            i = stars[0]
            after = len(t.elts) - i - 1
            if len(vals) < len(t.elts) - 1:
                throw(ValueError, "not enough values to unpack")
            mid = vals[i : len(vals) - after]
            for e, x in zip(t.elts[:i], vals[:i]):
                assign(e, x, fr)
            assign(t.elts[i].value, new_list([Item(x) for x in mid]), fr)  # type: ignore
            for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                assign(e, x, fr)
            return
        if len(vals) != len(t.elts):
            throw(ValueError, "wrong number of values to unpack")
        for e, x in zip(t.elts, vals):
            assign(e, x, fr)
    else:
        undecided("assignment target")


def store(name: str, v: Any, fr: Frame) -> None:
    if name in fr.globals_:
        setf(fr.module, name, v)
        return
    if name in fr.nonlocals:
        p = fr.parent
        while p is not None:
            if name in p.f:
                setf(p, name, v)
                return
            p = p.parent
    setf(fr, name, v)


def lookup(name: str, fr: Any) -> Any:
    f = fr
    while f is not None:
        v = getf(f, name)
        if v is not MISSING:
            return _force(v, f, name)
        f = f.parent
        while isinstance(f, ClassFrame) and not isinstance(fr, ClassFrame):
            f = f.parent
    v = getf(fr.module, name)
    if v is not MISSING:
        return _force(v, fr.module, name)
    b = pylib.builtin(name)
    if b is not None:
        return b
    return throw(NameError, name)


def _force(v: Any, o: Any, name: str) -> Any:
    if isinstance(v, LazyName):
        if v.name not in v.module.f:
            return undecided(f"{v.module.name}.{v.name} is missing")
        return v.module.f[v.name]
    return v


# --- expressions --------------------------------------------------------------------------


def ev(n: ast.expr, fr: Frame) -> Any:
    return _EXPR[type(n)](n, fr)


def e_const(n: ast.Constant, fr: Frame) -> Any:
    return n.value


def e_name(n: ast.Name, fr: Frame) -> Any:
    return lookup(n.id, fr)


def e_attr(n: ast.Attribute, fr: Frame) -> Any:
    return getattr_(ev(n.value, fr), n.attr)


def e_call(n: ast.Call, fr: Frame) -> Any:
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
        return make_super(fr)
    f = ev(n.func, fr)
    args: List[Any] = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            args.extend(pylib.known_items(ev(a.value, fr)))
        else:
            args.append(ev(a, fr))
    kwargs: Dict[str, Any] = {}
    for k in n.keywords:
        if k.arg is None:
            d = ev(k.value, fr)
            if not isinstance(d, DictV):
                return undecided("** argument")
            for kk, vv in items_of(d, "#segs"):
                kwargs[kk] = vv
        else:
            kwargs[k.arg] = ev(k.value, fr)
    return call(f, args, kwargs)


def make_super(fr: Frame) -> Any:
    f: Any = fr
    while f is not None and (f.func is None or not f.func.node.args.args):
        f = f.parent
    while f.parent is not None and f.parent.func is f.func:
        f = f.parent
    func = f.func
    first = func.node.args.args[0].arg
    obj = f.f[first]
    cls = obj if isinstance(obj, ClassV) else typ(obj)
    mro = cls.mro[cls.mro.index(func.cls) + 1 :]
    return SuperV(mro, obj)


def e_binop(n: ast.BinOp, fr: Frame) -> Any:
    return binop(n.op, ev(n.left, fr), ev(n.right, fr))


def e_unary(n: ast.UnaryOp, fr: Frame) -> Any:
    v = ev(n.operand, fr)
    if isinstance(n.op, ast.Not):
        return not truth(v)
    if is_const(v):
        if isinstance(n.op, ast.USub):
            return pycall(lambda: -v)
        if isinstance(n.op, ast.UAdd):
            return pycall(lambda: +v)
        return pycall(lambda: ~v)
    if isinstance(v, Sym) and isinstance(n.op, (ast.USub, ast.UAdd)):
        c = typ(v)
        if c is pyclass(int):
            return mk(lmul(v.term, -1)) if isinstance(n.op, ast.USub) else v
        if c is pyclass(float):
            return mk(("fn", "neg", frozenset([FLOAT]), v.term))
        throw(TypeError, "bad operand type for unary -")
    return undecided("unary operator")


def e_boolop(n: ast.BoolOp, fr: Frame) -> Any:
    v: Any = None
    for i, x in enumerate(n.values):
        v = ev(x, fr)
        if i == len(n.values) - 1:
            return v
        t = truth(v)
        if isinstance(n.op, ast.And) and not t:
            return v
        if isinstance(n.op, ast.Or) and t:
            return v
    return v


def e_compare(n: ast.Compare, fr: Frame) -> Any:
    left = ev(n.left, fr)
    for op, r in zip(n.ops, n.comparators):
        right = ev(r, fr)
        res = compare(op, left, right)
        if not res:
            return False
        left = right
    return True


def is_same(a: Any, b: Any) -> bool:
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x is None or isinstance(x, bool):
            if isinstance(y, Sym):
                if x is None:
                    if NULL not in S.kinds(y.term):
                        return False
                    return S.is_kind(y.term, frozenset([NULL]))
                if not S.is_kind(y.term, frozenset([BOOL])):
                    return False
                return S.decide(("istrue", y.term)) == x
            return x is y
    if isinstance(a, Poison) or isinstance(b, Poison):
        return undecided("a variable of the last iteration")
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.term == b.term:
            return True
        if not (S.kinds(a.term) & S.kinds(b.term)):
            return False
        x, y = sorted((a.term, b.term), key=_tkey)
        return S.decide(("is", x, y))
    if isinstance(a, CONST) and isinstance(b, CONST):
        return type(a) is type(b) and a == b
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Sym) or isinstance(b, Sym):
            s = a if isinstance(a, Sym) else b
            o = b if isinstance(a, Sym) else a
            if isinstance(o, Inst) and S.kinds(s.term) <= set(_KIND_PY):
                return False
            return undecided(f"{a!r} is {b!r}")
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return undecided("identity of bound methods")
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return undecided("identity of tuples")
    return False


def compare(op: ast.cmpop, a: Any, b: Any) -> bool:
    if isinstance(op, ast.Eq):
        return eq(a, b)
    if isinstance(op, ast.NotEq):
        return not eq(a, b)
    if isinstance(op, ast.Is):
        return is_same(a, b)
    if isinstance(op, ast.IsNot):
        return not is_same(a, b)
    if isinstance(op, ast.In):
        return contains(b, a)
    if isinstance(op, ast.NotIn):
        return not contains(b, a)
    if isinstance(op, ast.Lt):
        return compare_lt(a, b)
    if isinstance(op, ast.Gt):
        return compare_lt(b, a)
    if isinstance(op, ast.LtE):
        if _ordered_pair(a, b):
            return not compare_lt(b, a)
        return compare_lt(a, b) or eq(a, b)
    if isinstance(op, ast.GtE):
        if _ordered_pair(a, b):
            return not compare_lt(a, b)
        return compare_lt(b, a) or eq(a, b)
    return undecided("comparison")


def _ordered_pair(a: Any, b: Any) -> bool:
    if is_const(a) and is_const(b):
        return True
    return isinstance(a, (int, Sym)) and isinstance(b, (int, Sym))


def hashable(v: Any) -> bool:
    return isinst(v, pyclass(cabc.Hashable))


def contains(c: Any, x: Any) -> bool:
    """`x in c`."""
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, tuple) or (isinstance(c, (ListV, TupV)) and not _user_contains(c)):
        if isinstance(c, ListV) and _setlike(c) and not hashable(x):
            throw(TypeError, "unhashable type")
        segs = tup_segs(c) if not isinstance(c, ListV) else getf(c, "#segs")
        for s in segs:
            if isinstance(s, Item):
                if eq(x, s.v):
                    return True
            else:
                from . import loops

                if isinstance(s, RaiseSeg):
                    raise Raised(s.exc)
                if loops.any_each(s, lambda v: eq(x, v)):
                    return True
        return False
    if isinstance(c, DictV):
        m = _user_attr(c.cls, "__contains__")
        if m:
            return truth(call(bind(m, c), [x]))
        if not hashable(x):
            throw(TypeError, "unhashable type")
        return dict_find(c, x) is not MISSING
    if isinstance(c, Sym):
        t = c.term
        ks = S.kinds(t)
        if not ks <= set(_KIND_PY):
            return undecided(f"in {c!r}")
        if S.is_kind(t, frozenset([DICT])):
            return has_key(t, x)
        if S.is_kind(t, frozenset([LIST])):
            from . import loops

            return loops.any_each(list_segs(t)[0], lambda v: eq(v, x))
        if S.is_kind(t, KSTR):
            if not isinst(x, STRC):
                throw(TypeError, "'in <string>' requires string")
            if isinstance(x, str):
                return S.in_lang(
                    t, dfa.seq(dfa.ALL, dfa.lit(x), dfa.ALL)
                )
            return S.decide(("substr", _term(x), t))
        throw(TypeError, "argument is not iterable")
    if isinstance(c, str):
        if not isinst(x, STRC):
            throw(TypeError, "'in <string>' requires string")
        subs = sorted({c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)})
        return S.in_lang(x.term, dfa.alt(*[dfa.lit(s) for s in subs]))
    if isinstance(c, Inst):
        m = find_attr(c.cls, "__contains__")
        if m is not MISSING:
            return truth(call(bind(m, c), [x]))
    if isinstance(c, Opaque):
        if "__contains__" in c.attrs:
            return truth(call(c.attrs["__contains__"], [x]))
        return undecided(f"in {c!r}")
    if isinstance(c, RangeV):
        if not isinst(x, pyclass(int)):
            return False
        if c.step == 1:
            return S.le0(ladd(_term(c.lo), _term(x), -1)) and not S.le0(
                ladd(_term(c.hi), _term(x), -1)
            )
        return undecided("in range")
    if isinstance(c, CONST):
        throw(TypeError, "argument is not iterable")
    if isinstance(c, IterV):
        for s in iter_segs(c):
            if isinstance(s, Item):
                if eq(x, s.v):
                    return True
            elif isinstance(s, RaiseSeg):
                raise Raised(s.exc)
            else:
                from . import loops

                if loops.any_each(s, lambda v: eq(x, v)):
                    return True
        return False
    return undecided(f"in {c!r}")


def _user_contains(c: Any) -> bool:
    return isinstance(c, ListV) and bool(_user_attr(c.cls, "__contains__"))


def has_key(t: Any, k: Any) -> bool:
    """Does the JSON object _t_ have the key _k_?"""
    if not hashable(k):
        throw(TypeError, "unhashable type")
    if not isinst(k, STRC):
        return False
    kt = strings.settle(_term(k))
    if S.effects:
        from . import mutate

        now = mutate.lookup(t, kt)
        if now is not None:
            return now is not mutate.GONE
    if isinstance(kt, tuple):
        if kt[0] == "key" and kt[1] == origin(t):
            return True
        c = S.str_const(kt)
        if c is not None:
            kt = c
    if S.truth(("haskey", t, kt)) is None and S.lin_implied(("lin", 0, ((("len", origin(t)), 1),))):
        return False
    return S.decide(("haskey", t, kt))


def dict_find(d: DictV, k: Any) -> Any:
    """The value for key _k_, or MISSING."""
    segs = getf(d, "#segs")
    if any(not isinstance(s, Item) for s in segs):
        for s in segs:
            if isinstance(s, Item) and eq(s.v[0], k):
                undecided("lookup in a partly known dict")
        return undecided("lookup in a dict with unknown keys")
    if isinstance(k, Sym) and all(isinstance(s.v[0], str) for s in segs) and segs:
        if not isinst(k, STRC):
            return MISSING
        groups: List[Tuple[Any, List[str]]] = []
        seen: Dict[str, Any] = {s.v[0]: s.v[1] for s in segs}
        for kk, v in seen.items():
            for g in groups:
                if g[0] is v or (
                    is_const(v) and is_const(g[0]) and type(v) is type(g[0]) and v == g[0]
                ) or same_bound(v, g[0]):
                    g[1].append(kk)
                    break
            else:
                groups.append((v, [kk]))
        for v, kks in groups:
            if S.in_lang(k.term, dfa.alt(*[dfa.lit(x) for x in kks])):
                return v
        return MISSING
    for s in reversed(segs):
        if eq(s.v[0], k):
            return s.v[1]
    return MISSING


def same_bound(a: Any, b: Any) -> bool:
    return (
        isinstance(a, BoundV)
        and isinstance(b, BoundV)
        and a.func is b.func
        and a.self is b.self
    )


def e_subscript(n: ast.Subscript, fr: Frame) -> Any:
    o = ev(n.value, fr)
    if isinstance(o, ClassV) and "#members" not in o.f:
        return o
    if isinstance(o, Ext):
        return pylib.ext_subscript(o)
    return pylib.getitem(o, ev(n.slice, fr))


def e_slice(n: ast.Slice, fr: Frame) -> Any:
    f = lambda x: None if x is None else ev(x, fr)  # noqa: E731
    return SliceV(f(n.lower), f(n.upper), f(n.step))


def e_tuple(n: ast.Tuple, fr: Frame) -> Any:
    segs = elts(n.elts, fr)
    if all(isinstance(s, Item) for s in segs):
        return tuple(s.v for s in segs)
    return TupV(tuple(segs))


def elts(es: List[ast.expr], fr: Frame) -> List[Any]:
    segs: List[Any] = []
    for e in es:
        if isinstance(e, ast.Starred):
            segs.extend(pylib.strip_raise(iter_segs(ev(e.value, fr))))
        else:
            segs.append(Item(ev(e, fr)))
    return segs


def e_list(n: ast.List, fr: Frame) -> Any:
    return new_list(elts(n.elts, fr))


def e_set(n: ast.Set, fr: Frame) -> Any:
    return pylib.make_set(SETC, elts(n.elts, fr))


def e_dict(n: ast.Dict, fr: Frame) -> Any:
    d = DictV(DICTC)
    for k, v in zip(n.keys, n.values):
        if k is None:
            o = ev(v, fr)
            pylib.dict_update(d, o)
        else:
            kk = ev(k, fr)
            pylib.dict_set(d, kk, ev(v, fr))
    return d


def e_joined(n: ast.JoinedStr, fr: Frame) -> Any:
    out: Any = ""
    for p in n.values:
        if isinstance(p, ast.Constant):
            out = pylib.cat(out, p.value)
        else:
            assert isinstance(p, ast.FormattedValue)
            v = ev(p.value, fr)
            spec = ev(p.format_spec, fr) if p.format_spec else ""
            if p.conversion == 114:
                v = pylib.repr_(v)
            elif p.conversion == 97:
                v = pylib.fmt_term("ascii", v)
            elif p.conversion == 115 or not spec:
                v = pylib.str_(v)
            if spec:
                v = pylib.format_(v, spec)
            out = pylib.cat(out, v)
    return out


def e_ifexp(n: ast.IfExp, fr: Frame) -> Any:
    return ev(n.body if truth(ev(n.test, fr)) else n.orelse, fr)


def e_lambda(n: ast.Lambda, fr: Frame) -> Any:
    return make_func(n, fr, "<lambda>")


def e_named(n: ast.NamedExpr, fr: Frame) -> Any:
    v = ev(n.value, fr)
    f = fr
    while f.f.get("#comp"):
        f = f.parent
    store(n.target.id, v, f)  # type: ignore
    return v


def comp_run(gens: List[ast.comprehension], fr: Frame, emit: Callable[[], None], first: Any = None) -> None:
    from . import loops

    if not gens:
        emit()
        return
    g = gens[0]
    src = first if first is not None else ev(g.iter, fr)
    segs = src if isinstance(src, tuple) and first is not None else iter_segs(src, bool(g.is_async))

    def body(v: Any) -> Any:
        assign(g.target, v, fr)
        for c in g.ifs:
            if not truth(ev(c, fr)):
                return CONTINUE
        comp_run(gens[1:], fr, emit)
        return NORMAL

    loops.run(segs, body, None)


def comp_frame(fr: Frame) -> Frame:
    f = Frame(fr, fr.module, fr.func)
    f.f["#comp"] = True
    return f


def e_listcomp(n: Any, fr: Frame) -> Any:
    f = comp_frame(fr)
    out = new_list()
    comp_run(
        n.generators, f, lambda: appendf(out, "#segs", [Item(ev(n.elt, f))])
    )
    if isinstance(n, ast.SetComp):
        return pylib.make_set(SETC, list(getf(out, "#segs")))
    return out


def e_dictcomp(n: ast.DictComp, fr: Frame) -> Any:
    f = comp_frame(fr)
    out = DictV(DICTC)

    comp_depth[id(f)] = S.depth

    def emit() -> None:
        k = ev(n.key, f)
        v = ev(n.value, f)
        if S.depth > comp_depth[id(f)]:
            if not (isinstance(k, Sym) and k.term[0] == "key"):
                undecided("a dict with computed keys")
            appendf(out, "#segs", [Item((k, v))])
        else:
            pylib.dict_set(out, k, v)

    comp_run(n.generators, f, emit)
    return out


comp_depth: Dict[int, int] = {}


def e_genexp(n: ast.GeneratorExp, fr: Frame) -> Any:
    f = comp_frame(fr)
    g0 = n.generators[0]
    src = ev(g0.iter, fr)
    is_async = any(g.is_async for g in n.generators)

    def thunk() -> Tuple:
        f.f["#out"] = ()
        try:
            comp_run(
                n.generators,
                f,
                lambda: appendf(f, "#out", [Item(ev(n.elt, f))]),
                iter_segs(src, bool(g0.is_async)),
            )
        except Raised as e:
            appendf(f, "#out", [RaiseSeg(e.exc)])
        return f.f["#out"]

    return gen(thunk, is_async, "genexpr")


def gen_frame(fr: Frame) -> Frame:
    while "#out" not in fr.f or fr.f.get("#comp"):
        fr = fr.parent
    return fr


def e_yield(n: ast.Yield, fr: Frame) -> Any:
    v = ev(n.value, fr) if n.value is not None else None
    gf = gen_frame(fr)
    if "#on_yield" in gf.f:
        return gf.f["#on_yield"](v)
    appendf(gf, "#out", [Item(v)])
    return None


def e_yieldfrom(n: ast.YieldFrom, fr: Frame) -> Any:
    v = ev(n.value, fr)
    segs = iter_segs(v)
    out = []
    for s in segs:
        if isinstance(s, RaiseSeg):
            appendf(gen_frame(fr), "#out", out)
            raise Raised(s.exc)
        out.append(s)
    from . import loops

    appendf(gen_frame(fr), "#out", loops.at_depth(tuple(out)))
    return None


def e_await(n: ast.Await, fr: Frame) -> Any:
    return await_(ev(n.value, fr))


def await_(v: Any) -> Any:
    if isinstance(v, CoroV):
        return v.thunk()
    if isinstance(v, Opaque) and "__await__" in v.attrs:
        return call(v.attrs["__await__"], [])
    if isinstance(v, (IterV, Inst, Sym, *CONST, tuple)):
        throw(TypeError, "can't be used in 'await' expression")
    return undecided("await")


def e_starred(n: ast.Starred, fr: Frame) -> Any:
    return undecided("starred expression")


def binop(op: ast.operator, a: Any, b: Any) -> Any:
    return pylib.binop(op, a, b)


def e_unsupported(n: Any, fr: Frame) -> Any:
    return undecided(f"expression {type(n).__name__}")


class _Exprs(dict):
    def __missing__(self, k: Any) -> Any:
        return e_unsupported


_EXPR = _Exprs(
    {
        ast.Constant: e_const,
        ast.Name: e_name,
        ast.Attribute: e_attr,
        ast.Call: e_call,
        ast.BinOp: e_binop,
        ast.UnaryOp: e_unary,
        ast.BoolOp: e_boolop,
        ast.Compare: e_compare,
        ast.Subscript: e_subscript,
        ast.Slice: e_slice,
        ast.Tuple: e_tuple,
        ast.List: e_list,
        ast.Set: e_set,
        ast.Dict: e_dict,
        ast.JoinedStr: e_joined,
        ast.IfExp: e_ifexp,
        ast.Lambda: e_lambda,
        ast.NamedExpr: e_named,
        ast.ListComp: e_listcomp,
        ast.SetComp: e_listcomp,
        ast.DictComp: e_dictcomp,
        ast.GeneratorExp: e_genexp,
        ast.Yield: e_yield,
        ast.YieldFrom: e_yieldfrom,
        ast.Await: e_await,
        ast.Starred: e_starred,
    }
)

from . import strings  # noqa: E402
from . import pylib  # noqa: E402

_ = (level, pybuiltins)
