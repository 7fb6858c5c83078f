"""Models of Python's builtins and of the library modules the package uses."""

from __future__ import annotations

import ast
import builtins as pybuiltins
import collections
import collections.abc as cabc
import copy as pycopy
import decimal
import _string
import itertools
import json as pyjson
import re as pyre
import string
import sys as pysys
from typing import Any
from typing import Dict
from typing import Iterator
from typing import List
from typing import Optional
from typing import Tuple

from . import dfa
from . import interp as I
from . import strings
from .freeze import freeze
from .freeze import freeze_segs
from .state import BOOL
from .state import DICT
from .state import FLOAT
from .state import INT
from .state import JSON
from .state import KBOOL
from .state import KINT
from .state import KSTR
from .state import LIST
from .state import MISSING
from .state import NULL
from .state import STR
from .state import Undecided
from .state import ladd
from .state import level
from .state import lmul
from .state import sym
from .values import POISON
from .values import quietf
from .values import S
from .values import Builtin
from .values import BoundV
from .values import ClassV
from .values import CoroV
from .values import DictV
from .values import Each
from .values import Ext
from .values import FuncV
from .values import Inst
from .values import Item
from .values import IterV
from .values import ListV
from .values import MatchV
from .values import ModuleV
from .values import Opaque
from .values import Poison
from .values import Raised
from .values import RaiseSeg
from .values import RangeV
from .values import RegexV
from .values import SliceV
from .values import Sym
from .values import TupV
from .values import Wrap
from .values import appendf
from .values import delf
from .values import getf
from .values import mk
from .values import setf

CONST = I.CONST
undecided = I.undecided
throw = I.throw
pyclass = I.pyclass
LIT = frozenset([LIST])
DIT = frozenset([DICT])
NUM = frozenset([BOOL, INT, FLOAT])

DEQUE = pyclass(collections.deque)
FSET = pyclass(frozenset)


# --- strings -------------------------------------------------------------------------


def cat_term(parts: Any) -> Any:
    out: List[Any] = []
    for p in parts:
        if isinstance(p, Sym):
            p = p.term
        ps = p[1:] if isinstance(p, tuple) and p and p[0] == "cat" else (p,)
        for x in ps:
            if x == "":
                continue
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return ("cat", *out)


def cat(a: Any, b: Any) -> Any:
    return mk(cat_term((a, b)))


def fmt_term(name: str, v: Any, *more: Any) -> Any:
    try:
        k = freeze(v)
    except Undecided:
        k = ("unnamed", id(v))
    return Sym(("fn", name, KSTR, k, *more))


def exc_str(v: Any) -> Any:
    """What the built-in exception classes print."""
    a = getf(v, "args", ())
    if a == ():
        return ""
    if isinstance(a, tuple) and len(a) == 1:
        if I.subclass(v.cls, I.pyclass(KeyError)):
            return fmt_term("repr", a[0])
        return str_(a[0])
    return fmt_term("str", v)


def str_(v: Any) -> Any:
    """str(v)"""
    if isinstance(v, str):
        return v
    if isinstance(v, CONST):
        return str(v)
    if isinstance(v, Sym):
        ks = S.kinds(v.term)
        if ks == KSTR:
            return v
        if ks == KINT:
            return strof(v.term)
        if ks == frozenset([INT, STR]):
            return v if S.is_kind(v.term, KSTR) else strof(v.term)
        return fmt_term("str", v)
    if isinstance(v, Inst):
        m = I.find_attr(v.cls, "__str__")
        if m is MISSING and not I.subclass(v.cls, I.EXC):
            m = I.find_attr(v.cls, "__repr__")
        if m is not MISSING:
            return I.call(I.bind(m, v), [])
        if I.subclass(v.cls, I.EXC):
            return exc_str(v)
        return fmt_term("str", v)
    if isinstance(v, Opaque) and "__str__" in v.attrs:
        return I.call(v.attrs["__str__"], [])
    if isinstance(v, RegexV):
        return fmt_term("str", v)
    if isinstance(v, Poison):
        return undecided("a variable of the last iteration")
    return fmt_term("str", v)


def strof(t: Any) -> Any:
    if isinstance(t, int):
        return str(t)
    if t[0] == "int" and dfa.subset(S.lang(t[1]), CANONICAL):
        return Sym(t[1])
    return Sym(("strof", t))


def repr_(v: Any) -> Any:
    if isinstance(v, CONST):
        return repr(v)
    if isinstance(v, Sym) and S.kinds(v.term) == KINT:
        return strof(v.term)
    if isinstance(v, Inst):
        m = I.find_attr(v.cls, "__repr__")
        if m is not MISSING:
            return I.call(I.bind(m, v), [])
    return fmt_term("repr", v)


def format_(v: Any, spec: Any) -> Any:
    if isinstance(v, CONST) and isinstance(spec, str):
        return I.pycall(format, v, spec)
    return fmt_term("format", v, I._term(spec))


_char_class: Dict[str, Any] = {}


def str_class(name: str) -> Any:
    """The language of strings for which str.<name>() is true."""
    r = _char_class.get(name)
    if r is None:
        f = getattr(str, name)
        rng = []
        start = None
        for cp in range(0x110000):
            if f(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                rng.append((start, cp - 1))
                start = None
        if start is not None:
            rng.append((start, 0x10FFFF))
        r = _char_class[name] = dfa.plus(dfa.char(dfa.cs(*rng)))
    return r


CANONICAL = dfa.fullmatch(r"0|-?[1-9][0-9]*")
INT_TEXT = dfa.fullmatch(r"\s*[+-]?\d+(?:_\d+)*\s*")
FLOAT_TEXT = dfa.fullmatch(
    r"\s*[+-]?(?:\d+(?:_\d+)*\.?(?:\d+(?:_\d+)*)?|\.\d+(?:_\d+)*)(?:[eE][+-]?\d+(?:_\d+)*)?\s*"
    r"|\s*[+-]?(?:[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])\s*"
)
SHORT = None


def int_of(v: Any, *base: Any) -> Any:
    if isinstance(v, CONST) and all(isinstance(b, CONST) for b in base):
        return I.pycall(int, v, *base)
    if base:
        return undecided("int() with a base")
    if isinstance(v, Sym):
        c = I.typ(v)
        if c is I.STRC:
            t = v.term
            k = S.str_const(t)
            if k is not None:
                return I.pycall(int, k)
            if t[0] == "strof":
                return mk(t[1])
            if not S.in_lang(t, INT_TEXT):
                throw(ValueError, "invalid literal for int()")
            t = strings.settle(t)
            if not S.short_ints and S.decide(("toolong", t)):
                throw(ValueError, "Exceeds the limit for integer string conversion")
            return Sym(("int", t))
        if c is pyclass(int):
            return v
        if c is pyclass(bool):
            return int(S.decide(("istrue", v.term)))
        if c is pyclass(float):
            return Sym(("fn", "int", KINT, v.term))
        throw(TypeError, "int() argument must be a string or a number")
    if isinstance(v, (ListV, DictV, tuple)):
        throw(TypeError, "int() argument must be a string or a number")
    return undecided(f"int({v!r})")


def float_of(v: Any) -> Any:
    if isinstance(v, CONST):
        return I.pycall(float, v)
    if isinstance(v, Sym):
        c = I.typ(v)
        if c is I.STRC:
            t = v.term
            if not S.in_lang(t, FLOAT_TEXT):
                throw(ValueError, "could not convert string to float")
            return Sym(("fn", "float", frozenset([FLOAT]), t))
        if c is pyclass(float):
            return v
        if c is pyclass(int):
            return Sym(("fn", "float", frozenset([FLOAT]), v.term))
    return undecided(f"float({v!r})")


# --- sequences -------------------------------------------------------------------------


def strip_raise(segs: Tuple) -> Tuple:
    for s in segs:
        if isinstance(s, RaiseSeg):
            raise Raised(s.exc)
    return tuple(segs)


def known_items(v: Any) -> List[Any]:
    """The items of an iterable of known length."""
    out = []
    for s in I.iter_segs(v):
        if isinstance(s, Item):
            out.append(s.v)
        elif isinstance(s, RaiseSeg):
            raise Raised(s.exc)
        else:
            return undecided("an unknown number of items")
    return out


def make_set(c: ClassV, segs: List[Any]) -> Any:
    out = ListV(c)
    items: List[Any] = []
    if any(not isinstance(s, Item) for s in segs):
        out.f["#segs"] = tuple(strip_raise(tuple(segs)))
        return out
    for s in segs:
        if not I.hashable(s.v):
            throw(TypeError, "unhashable type")
        if not any(I.eq(s.v, x) for x in items):
            items.append(s.v)
    out.f["#segs"] = tuple(Item(x) for x in items)
    return out


def slice_bounds(sl: SliceV, n: Any) -> Tuple[Any, Any, Any]:
    """slice.indices(n), partitioning by the cases of its definition."""
    if I.is_const(sl.start) and I.is_const(sl.stop) and I.is_const(sl.step) and isinstance(n, int):
        return I.pycall(lambda: slice(sl.start, sl.stop, sl.step).indices(n))
    for b in (sl.start, sl.stop, sl.step):
        if not I.isinst(b, (pyclass(int), pyclass(type(None)))):
            throw(TypeError, "slice indices must be integers or None")
    step = 1 if I.is_same(sl.step, None) else I._term(sl.step)
    if step == 0 or not isinstance(step, int) and S.eq0(step):
        throw(ValueError, "slice step cannot be zero")
    neg = step < 0 if isinstance(step, int) else S.le0(step)
    lower = -1 if neg else 0
    upper = ladd(n, -1) if neg else n

    def one(b: Any, dflt: Any) -> Any:
        if I.is_same(b, None):
            return dflt
        t = I._term(b)
        if S.le0(ladd(t, 1)):
            t = ladd(t, n)
            return lower if S.le0(ladd(ladd(t, lower, -1), 1)) else t
        return upper if S.le0(ladd(ladd(upper, t, -1), 1)) else t

    start = one(sl.start, upper if neg else lower)
    stop = one(sl.stop, lower if neg else upper)
    return start, stop, step


def within(t: Any, n: int) -> Any:
    """A number between -1 and n, by cases."""
    if not isinstance(t, int):
        for k in range(-1, n + 1):
            if S.eq0(ladd(t, -k)):
                return k
    return t


def seq_slice(segs: Tuple, sl: SliceV) -> Tuple:
    """A slice of a sequence of segments."""
    if all(isinstance(s, Item) for s in segs) and all(
        I.is_const(b) for b in (sl.start, sl.stop, sl.step)
    ):
        return I.pycall(lambda: segs[slice(sl.start, sl.stop, sl.step)])
    n = I.segs_len(segs)
    if isinstance(n, int) and all(isinstance(s, Item) for s in segs):
        lo, hi, step = slice_bounds(sl, n)
        lo, hi = within(lo, n), within(hi, n)
        if all(isinstance(x, int) for x in (lo, hi, step)):
            return tuple(segs[i] for i in range(lo, hi, step))
        return undecided("a slice with unknown bounds")
    if sl.step not in (None, 1):
        return undecided("a stepped slice of an unknown sequence")
    if sl.start is None and sl.stop is None:
        return segs
    if sl.stop is None and isinstance(sl.start, int) and sl.start > 0:
        k = sl.start
        i = 0
        while i < len(segs) and k and isinstance(segs[i], Item):
            i += 1
            k -= 1
        segs = segs[i:]
        if not k:
            return segs
        if len(segs) == 1 and isinstance(segs[0], Each) and plain_each(segs[0]):
            e = segs[0]
            if e.dom[0] == "range" and e.dom[3] == 1:
                return (Each(("range", ladd(e.dom[1], k), e.dom[2], 1), e.var, e.cases),)
            return (Each(("drop", e.dom, k), e.var, e.cases),)
    if len(segs) == 1 and isinstance(segs[0], Each) and plain_each(segs[0]):
        e = segs[0]
        if e.dom[0] == "range" and e.dom[3] == 1:
            lo, hi, _ = slice_bounds(sl, n)
            base = e.dom[1]
            return (Each(("range", ladd(base, lo), ladd(base, hi), 1), e.var, e.cases),)
    return undecided("a slice of an unknown sequence")


def plain_each(e: Each) -> bool:
    """One element for every member of the domain?"""
    return (
        len(e.cases) == 1
        and not e.cases[0][0]
        and len(e.cases[0][1]) == 1
        and isinstance(e.cases[0][1][0], Item)
    )


def seq_index(segs: Tuple, i: Any) -> Any:
    """segs[i], raising IndexError."""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if i >= 0:
            k = i
            for s in segs:
                if isinstance(s, Item):
                    if k == 0:
                        return s.v
                    k -= 1
                elif isinstance(s, RaiseSeg):
                    raise Raised(s.exc)
                else:
                    return each_index(segs, i)
            throw(IndexError, "index out of range")
        k = -i
        for s in reversed(segs):
            if isinstance(s, Item):
                k -= 1
                if k == 0:
                    return s.v
            else:
                return each_index(segs, i)
        throw(IndexError, "index out of range")
    return each_index(segs, i)


def each_index(segs: Tuple, i: Any) -> Any:
    from . import loops

    if len(segs) == 1 and isinstance(segs[0], Each) and plain_each(segs[0]):
        e = loops.shifted(segs[0], S.depth + 1)
        n = I.dom_count(e)
        j = norm_index(I._term(i), n)
        if e.dom[0] == "range" and e.dom[3] == 1:
            inst = loops.instantiate(e, ladd(e.dom[1], j))
            return inst.cases[0][1][0].v
        if e.dom[0] == "members":
            inst = loops.instantiate(e, j)
            return inst.cases[0][1][0].v
    if all(isinstance(s, Item) for s in segs) and len(segs) <= 4:
        j = norm_index(I._term(i), len(segs))
        for k, s in enumerate(segs):
            if k == len(segs) - 1 or S.eq0(ladd(j, -k)):
                if k == len(segs) - 1:
                    S.assume_eq0(ladd(j, -k))
                return s.v
    if i == 0:
        it = I.gen(lambda: segs)
        try:
            return next_of(it)
        except Raised as e2:
            if e2.exc.cls.py is StopIteration:
                throw(IndexError, "index out of range")
            raise
    return undecided("indexing a sequence of unknown elements")


def norm_index(i: Any, n: Any) -> Any:
    """A valid index of a sequence of length n, or IndexError."""
    if S.le0(ladd(i, 1)):  # i < 0
        i = ladd(i, n)
        if S.le0(ladd(i, 1)):
            throw(IndexError, "index out of range")
        return i
    if S.le0(ladd(n, i, -1)):  # n <= i
        throw(IndexError, "index out of range")
    return i


# --- subscripts ------------------------------------------------------------------------


def getitem(o: Any, k: Any) -> Any:
    if isinstance(o, Sym):
        t = o.term
        ks = S.kinds(t)
        if not ks <= set(I._KIND_PY):
            return undecided(f"{o!r}[…]")
        if S.is_kind(t, DIT):
            return dict_getitem(t, k)
        if S.is_kind(t, LIT):
            return list_getitem(t, k)
        if S.is_kind(t, KSTR):
            return str_getitem(t, k)
        throw(TypeError, "object is not subscriptable")
    if isinstance(o, str):
        if isinstance(k, Sym):
            if not I.isinst(k, pyclass(int)):
                throw(TypeError, "string indices must be integers")
            return undecided("indexing a string")
        if isinstance(k, SliceV):
            if all(I.is_const(b) for b in (k.start, k.stop, k.step)):
                return I.pycall(lambda: o[slice(k.start, k.stop, k.step)])
            return undecided("slicing a string")
        if isinstance(k, CONST):
            return I.pycall(lambda: o[k])
        throw(TypeError, "string indices must be integers")
    if isinstance(o, (tuple, TupV, ListV)):
        if isinstance(o, ListV):
            m = I._user_attr(o.cls, "__getitem__")
            if m:
                return I.call(I.bind(m, o), [k])
            if I._setlike(o):
                throw(TypeError, "object is not subscriptable")
            segs = getf(o, "#segs")
        else:
            segs = I.tup_segs(o)
        if isinstance(k, SliceV):
            r = seq_slice(segs, k)
            if isinstance(o, ListV):
                return I.new_list(r)
            if all(isinstance(s, Item) for s in r):
                return tuple(s.v for s in r)
            return TupV(r)
        if not I.isinst(k, pyclass(int)):
            throw(TypeError, "indices must be integers or slices")
        return seq_index(segs, k)
    if isinstance(o, DictV):
        m = I._user_attr(o.cls, "__getitem__")
        if m:
            return I.call(I.bind(m, o), [k])
        if not I.hashable(k):
            throw(TypeError, "unhashable type")
        v = I.dict_find(o, k)
        if v is MISSING:
            m = I._user_attr(o.cls, "__missing__")
            if m:
                return I.call(I.bind(m, o), [k])
            throw(KeyError, k)
        return v
    if isinstance(o, RangeV):
        if isinstance(k, SliceV):
            return undecided("slice of a range")
        n = I.len_of(o)
        j = norm_index(I._term(k), n)
        if o.step == 1:
            return mk(ladd(I._term(o.lo), j))
        return undecided("range index")
    if isinstance(o, MatchV):
        return match_group(o, k)
    if isinstance(o, Inst):
        m = I.find_attr(o.cls, "__getitem__")
        if m is not MISSING:
            return I.call(I.bind(m, o), [k])
        throw(TypeError, "object is not subscriptable")
    if isinstance(o, Opaque) and "__getitem__" in o.attrs:
        return I.call(o.attrs["__getitem__"], [k])
    if isinstance(o, ClassV) and "#members" in o.f:
        if isinstance(k, str) and k in o.f:
            return o.f[k]
        throw(KeyError, k)
    if isinstance(o, CONST) and not isinstance(o, bytes):
        throw(TypeError, "object is not subscriptable")
    return undecided(f"{o!r}[…]")


def dict_getitem(t: Any, k: Any) -> Any:
    if not I.has_key(t, k):
        throw(KeyError, k)
    return member(t, key_term(k))


def member(t: Any, k: Any) -> Any:
    """The value of a key that the object _t_ has."""
    if S.effects:
        from . import mutate

        v = mutate.lookup(t, k)
        if v is not None:
            return v
    return Sym(("child", t, k))


def element(t: Any, j: Any) -> Any:
    if S.effects:
        from . import mutate

        return mutate.item(t, j)
    return Sym(("child", t, j))


def key_term(k: Any) -> Any:
    kt = strings.settle(I._term(k))
    if isinstance(kt, tuple) and kt[0] != "key":
        c = S.str_const(kt)
        if c is not None:
            return c
    return kt


def list_getitem(t: Any, k: Any) -> Any:
    n = I.len_of(Sym(t))
    if isinstance(k, SliceV):
        I.check_stale(t)
        lo, hi, step = slice_bounds(k, n)
        var = I.newvar()
        return I.new_list(
            (Each(("range", lo, hi, step), var, (((), (Item(Sym(("child", t, var))),)),)),)
        )
    if not I.isinst(k, pyclass(int)):
        throw(TypeError, "list indices must be integers or slices")
    if isinstance(k, Sym) and S.kinds(k.term) != KINT:
        if not S.is_kind(k.term, KINT):
            k = int(S.decide(("istrue", k.term)))
    i = I._term(k)
    if isinstance(i, tuple) and i[0] == "var" or isinstance(i, tuple) and i[0] == "first":
        pass
    j = norm_index(i, n)
    return element(t, j)


def from_the_end(t: Any, b: Any) -> Any:
    """A bound that's the length less something, as a negative number."""
    if isinstance(b, Sym) and S.kinds(b.term) == KINT:
        d = ladd(b.term, I.len_of(mk(t)), -1)
        if isinstance(d, int) and d <= 0 and S.le0(ladd(0, b.term, -1)):
            return d or None
    return b


def str_getitem(t: Any, k: Any) -> Any:
    if isinstance(k, SliceV):
        if isinstance(k.stop, Sym):
            k = SliceV(k.start, from_the_end(t, k.stop), k.step)
        for b in (k.start, k.stop, k.step):
            if not isinstance(b, (int, type(None))):
                if isinstance(b, Sym) and S.kinds(b.term) == KINT:
                    r = cat_slice_sym(t, k)
                    if r is not None:
                        return r
                    return Sym(("fn", "strslice", KSTR, t, freeze(k)))
                if isinstance(b, Sym):
                    return undecided("slice of a string")
                throw(TypeError, "slice indices must be integers")
        c = S.str_const(t)
        if c is not None:
            return c[slice(k.start, k.stop, k.step)]
        if k.step in (None, 1):
            r = cat_slice(t, k.start, k.stop)
            if r is not None:
                return mk(r)
        return Sym(("fn", "strslice", KSTR, t, freeze(k)))
    if not I.isinst(k, pyclass(int)):
        throw(TypeError, "string indices must be integers")
    if isinstance(k, int):
        c = S.str_const(t)
        if c is not None:
            return I.pycall(lambda: c[k])
        # The length has to be sufficient.
        need = k + 1 if k >= 0 else -k
        long = dfa.seq(*([dfa.char(dfa.ANY)] * need), dfa.ALL)
        if not S.in_lang(t, long):
            throw(IndexError, "string index out of range")
        if t[0] == "cat":
            p = t[1] if k >= 0 else t[-1]
            if isinstance(p, str) and len(p) >= need:
                return p[k]
        return Sym(("strat", t, k))
    return Sym(("fn", "charat", KSTR, t, I._term(k)))


def cat_slice(t: Any, start: Optional[int], stop: Optional[int]) -> Any:
    """A slice that only removes known text from the ends."""
    parts = list(t[1:]) if t[0] == "cat" else [t]
    if start and start > 0:
        if not (isinstance(parts[0], str) and len(parts[0]) >= start):
            return None
        parts[0] = parts[0][start:]
    elif start:
        return None
    if stop is not None:
        if stop >= 0:
            return None
        if not (isinstance(parts[-1], str) and len(parts[-1]) >= -stop):
            return None
        parts[-1] = parts[-1][:stop]
    return cat_term(parts)


def cat_slice_sym(t: Any, k: SliceV) -> Any:
    """`t[len(x):]` where t starts with x."""
    if t[0] != "cat" or k.stop is not None or k.step is not None:
        return None
    rest = I._term(k.start)
    parts = list(t[1:])
    while parts:
        n = I.len_of(mk(parts[0]))
        if S.eq0_implied(ladd(rest, n, -1)):
            return mk(cat_term(parts[1:]))
        rest = ladd(rest, n, -1)
        parts.pop(0)
    return None


def setitem(o: Any, k: Any, v: Any) -> None:
    if isinstance(o, DictV):
        m = I._user_attr(o.cls, "__setitem__")
        if m:
            I.call(I.bind(m, o), [k, v])
            return
        if not I.hashable(k):
            throw(TypeError, "unhashable type")
        dict_set(o, k, v)
        return
    if isinstance(o, ListV):
        if I._setlike(o):
            throw(TypeError, "no item assignment")
        segs = list(getf(o, "#segs"))
        if isinstance(k, SliceV):
            if all(isinstance(s, Item) for s in segs) and I.is_const(k.start) and I.is_const(k.stop):
                new = list(strip_raise(I.iter_segs(v)))
                segs[slice(k.start, k.stop)] = new
                setf(o, "#segs", tuple(segs))
                return
            undecided("slice assignment")
        if not I.isinst(k, pyclass(int)):
            throw(TypeError, "list indices must be integers")
        if not isinstance(k, int):
            undecided("assignment to an unknown index")
        if all(isinstance(s, Item) for s in segs):
            if not -len(segs) <= k < len(segs):
                throw(IndexError, "assignment index out of range")
            segs[k] = Item(v)
            setf(o, "#segs", tuple(segs))
            return
        if k < 0 and all(isinstance(s, Item) for s in segs[k:]) and len(segs) >= -k:
            segs[k] = Item(v)
            setf(o, "#segs", tuple(segs))
            return
        undecided("assignment to an element of an unknown list")
    if isinstance(o, Sym):
        t = o.term
        if S.is_kind(t, DIT):
            if not I.hashable(k):
                throw(TypeError, "unhashable type")
            S.effects.append(("setkey", t, key_frozen(t, k), v))
            return
        if S.is_kind(t, LIT):
            if isinstance(k, SliceV):
                vals = known_items(v)
                lo, hi, step = slice_bounds(k, I.len_of(o))
                if step == 1 and S.eq0(ladd(lo, hi, -1)) and len(vals) == 1:
                    S.effects.append(("insert", t, lo, vals[0]))
                    return
                undecided("slice assignment")
            if not I.isinst(k, pyclass(int)):
                throw(TypeError, "list indices must be integers or slices")
            S.effects.append(("setindex", t, norm_index(I._term(k), I.len_of(o)), v))
            return
        throw(TypeError, "object does not support item assignment")
    if isinstance(o, Inst):
        m = I.find_attr(o.cls, "__setitem__")
        if m is not MISSING:
            I.call(I.bind(m, o), [k, v])
            return
    if isinstance(o, (*CONST, tuple, TupV, Inst)):
        throw(TypeError, "object does not support item assignment")
    undecided(f"{o!r}[…] = …")


def key_frozen(t: Any, k: Any) -> Any:
    """A key being written: known to be present or not."""
    if not I.isinst(k, I.STRC):
        # A key JSON objects don't have.
        return ("nonstr", freeze(k))
    return key_term(k)


def delitem(o: Any, k: Any) -> None:
    if isinstance(o, DictV):
        v = I.dict_find(o, k)
        if v is MISSING:
            throw(KeyError, k)
        setf(
            o, "#segs", tuple(s for s in getf(o, "#segs") if not I.eq(s.v[0], k))
        )
        return
    if isinstance(o, ListV):
        segs = list(getf(o, "#segs"))
        if isinstance(k, int) and all(isinstance(s, Item) for s in segs):
            I.pycall(lambda: segs.__delitem__(k))
            setf(o, "#segs", tuple(segs))
            return
        undecided("del of an unknown element")
    if isinstance(o, Sym):
        t = o.term
        if S.is_kind(t, DIT):
            if not I.has_key(t, k):
                throw(KeyError, k)
            S.effects.append(("delkey", t, key_term(k)))
            return
        if S.is_kind(t, LIT):
            if isinstance(k, SliceV):
                undecided("del of a slice")
            if not I.isinst(k, pyclass(int)):
                throw(TypeError, "list indices must be integers or slices")
            S.effects.append(("delindex", t, norm_index(I._term(k), I.len_of(o))))
            return
        throw(TypeError, "object doesn't support item deletion")
    if isinstance(o, Inst):
        m = I.find_attr(o.cls, "__delitem__")
        if m is not MISSING:
            I.call(I.bind(m, o), [k])
            return
    if isinstance(o, (*CONST, tuple, Inst)):
        throw(TypeError, "object doesn't support item deletion")
    undecided("del")


def dict_set(d: DictV, k: Any, v: Any) -> None:
    segs = getf(d, "#segs")
    if any(not isinstance(s, Item) for s in segs):
        undecided("assignment in a dict with unknown keys")
    for i, s in enumerate(segs):
        if I.eq(s.v[0], k):
            setf(d, "#segs", segs[:i] + (Item((s.v[0], v)),) + segs[i + 1 :])
            return
    setf(d, "#segs", (*segs, Item((k, v))))


def dict_update(d: DictV, o: Any) -> None:
    if isinstance(o, DictV):
        segs = getf(o, "#segs")
        if any(not isinstance(s, Item) for s in segs):
            if not getf(d, "#segs"):
                setf(d, "#segs", segs)
                return
            undecided("merging dicts with unknown keys")
        for s in segs:
            dict_set(d, s.v[0], s.v[1])
        return
    if isinstance(o, Sym):
        if not S.is_kind(o.term, DIT):
            undecided("dict.update")
        if getf(d, "#segs"):
            undecided("merging dicts with unknown keys")
        setf(d, "#segs", I.dict_segs(o.term, lambda k, c: (k, c)))
        return
    for p in known_items(o):
        k, v = known_items(p)
        dict_set(d, k, v)


# --- operators --------------------------------------------------------------------------

_PYOP = {
    ast.Add: lambda a, b: a + b,
    ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b,
    ast.FloorDiv: lambda a, b: a // b,
    ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a**b,
    ast.BitOr: lambda a, b: a | b,
    ast.BitAnd: lambda a, b: a & b,
    ast.BitXor: lambda a, b: a ^ b,
    ast.LShift: lambda a, b: a << b,
    ast.RShift: lambda a, b: a >> b,
}

_MAGIC = {
    ast.Add: "__add__",
    ast.Sub: "__sub__",
    ast.Mult: "__mul__",
    ast.Div: "__truediv__",
    ast.Mod: "__mod__",
    ast.BitOr: "__or__",
    ast.BitAnd: "__and__",
    ast.FloorDiv: "__floordiv__",
}


def binop(op: ast.operator, a: Any, b: Any) -> Any:
    if isinstance(a, CONST) and isinstance(b, CONST):
        if isinstance(op, ast.Pow) and isinstance(b, int) and abs(b) > 4096:
            return undecided("power")
        return I.pycall(_PYOP[type(op)], a, b)
    if isinstance(a, Inst) and not isinstance(a, (ListV, DictV)) or (
        isinstance(a, (ListV, DictV)) and I._user_attr(a.cls, _MAGIC.get(type(op), ""))
    ):
        m = I.find_attr(a.cls, _MAGIC.get(type(op), ""))
        if m is not MISSING:
            return I.call(I.bind(m, a), [b])
    if isinstance(b, Inst) and not isinstance(b, (ListV, DictV)):
        m = I.find_attr(b.cls, _MAGIC.get(type(op), "").replace("__", "__r", 1))
        if m is not MISSING:
            return I.call(I.bind(m, b), [a])
    if isinstance(op, ast.Add):
        if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return TupV(I.tup_segs(a) + I.tup_segs(b))
        if isinstance(a, ListV) and isinstance(b, ListV) and not I._setlike(a):
            return I.new_list(getf(a, "#segs") + getf(b, "#segs"))
    if isinstance(a, ListV) and isinstance(b, ListV) and I._setlike(a) and I._setlike(b):
        ia, ib = I.items_of(a), I.items_of(b)
        if isinstance(op, ast.BitOr):
            return make_set(a.cls, [Item(x) for x in ia + ib])
        if isinstance(op, ast.BitAnd):
            return make_set(a.cls, [Item(x) for x in ia if I.contains(b, x)])
        if isinstance(op, ast.Sub):
            return make_set(a.cls, [Item(x) for x in ia if not I.contains(b, x)])
    if isinstance(a, DictV) and isinstance(b, DictV) and isinstance(op, ast.BitOr):
        d = DictV(I.DICTC, getf(a, "#segs"))
        dict_update(d, b)
        return d
    if isinstance(op, ast.BitOr) and (
        isinstance(a, (ClassV, Ext)) or isinstance(b, (ClassV, Ext))
    ):
        return tuple(x for y in (a, b) for x in (y if isinstance(y, tuple) else (y,)))
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return percent(a, b)
    if isinstance(op, ast.Mult) and isinstance(b, int) and isinstance(a, (tuple, ListV)):
        if isinstance(a, tuple):
            return a * b
        return I.new_list(getf(a, "#segs") * b)
    if isinstance(a, (Sym, *CONST)) and isinstance(b, (Sym, *CONST)):
        return sym_binop(op, a, b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        return undecided("a variable of the last iteration")
    if isinstance(op, ast.Add):
        sq = (tuple, TupV)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, sq) and not isinstance(y, sq) and not isinstance(y, (Ext, Opaque)):
                throw(TypeError, "unsupported operand types for +")
            if isinstance(x, ListV) and isinstance(y, (*CONST, *sq)):
                throw(TypeError, "unsupported operand types for +")
    return undecided(f"operator {type(op).__name__}")


def sym_binop(op: ast.operator, a: Any, b: Any) -> Any:
    ta, tb = I.typ(a), I.typ(b)
    ints = (pyclass(int), pyclass(bool))
    if isinstance(op, ast.Add) and ta is I.STRC and tb is I.STRC:
        return cat(a, b)
    if isinstance(op, ast.Mult) and I.STRC in (ta, tb):
        return undecided("string repetition")
    if ta in ints and tb in ints:
        x, y = int_term(a), int_term(b)
        if isinstance(op, ast.Add):
            return mk(ladd(x, y))
        if isinstance(op, ast.Sub):
            return mk(ladd(x, y, -1))
        if isinstance(op, ast.Mult):
            if isinstance(x, int):
                return mk(lmul(y, x))
            if isinstance(y, int):
                return mk(lmul(x, y))
        return Sym(("fn", type(op).__name__, KINT, x, y))
    if ta in (I.LISTC,) and tb in (I.LISTC,) and isinstance(op, ast.Add):
        return I.new_list(I.iter_segs(a) + I.iter_segs(b))
    nums = (*ints, pyclass(float))
    if ta in nums and tb in nums:
        return Sym(("fn", type(op).__name__, frozenset([FLOAT]), I._term(a), I._term(b)))
    throw(TypeError, "unsupported operand types")


def int_term(v: Any) -> Any:
    if isinstance(v, Sym):
        if S.kinds(v.term) == KBOOL:
            return int(S.decide(("istrue", v.term)))
        return v.term
    return int(v)


# --- methods ------------------------------------------------------------------------------


def method(o: Any, name: str) -> Any:
    """A method (or attribute) of a builtin type."""
    c: Any = None
    if isinstance(o, str):
        c = "str"
    elif isinstance(o, Sym) and name == "decode" and S.kinds(o.term) == {"bytes"}:
        return Builtin(name, lambda a, k: _codecs_decode([o, *a], k))
    elif isinstance(o, Sym):
        return sym_method(o, name)
    elif isinstance(o, ListV):
        c = "set" if I._setlike(o) else "list"
    elif isinstance(o, DictV):
        c = "dict"
    elif isinstance(o, (tuple, TupV)):
        c = "tuple"
    elif isinstance(o, SliceV):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name == "indices":
            return Builtin(
                "indices",
                lambda a, k: tuple(mk(x) for x in slice_bounds(o, I._term(a[0]))),
            )
        return None
    elif isinstance(o, RegexV):
        return regex_method(o, name)
    elif isinstance(o, MatchV):
        return match_method(o, name)
    elif isinstance(o, RangeV):
        if name in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        return None
    elif isinstance(o, bytes):
        c = "bytes"
    elif isinstance(o, (IterV,)):
        if name in ("__next__", "__iter__", "__anext__", "__aiter__", "close"):
            if name in ("__next__",):
                return Builtin(name, lambda a, k: next_of(o))
            if name == "__iter__":
                return Builtin(name, lambda a, k: o)
        return None
    elif isinstance(o, (bool, int, float)):
        if name == "is_integer":
            return Builtin(name, lambda a, k: float(o).is_integer())
        return None
    elif isinstance(o, Inst) and I.subclass(o.cls, I.EXC):
        if name == "with_traceback":
            return Builtin(name, lambda a, k: o)
        if name == "__str__":
            return Builtin(name, lambda a, k: exc_str(o))
        if name == "__init__":

            def init(a: List[Any], k: Dict[str, Any]) -> Any:
                setf(o, "args", tuple(a))
                return None

            return Builtin(name, init)
        if name in ("msg", "reason", "pos", "doc", "lineno", "colno"):
            return fmt_term(f"attr:{name}", o.cls.name)
        return None
    elif isinstance(o, Inst):
        if name == "__init__":
            return Builtin(name, lambda a, k: None)
        if name == "__eq__":
            return Builtin(name, lambda a, k: I.is_same(o, a[0]))
        if name == "__str__":
            return Builtin(name, lambda a, k: str_(o))
        if name == "__hash__":
            return Builtin(name, lambda a, k: hash_(o))
        return None
    if c is None:
        return None
    fn = METHODS.get((c, name))
    if fn is None:
        if c == "str" and hasattr(str, name):
            fn = METHODS.get(("str", "*"))
            return Builtin(f"str.{name}", lambda a, k: const_str_method(o, name, a, k))
        if c == "bytes" and hasattr(bytes, name):
            return Builtin(f"bytes.{name}", lambda a, k: const_str_method(o, name, a, k))
        if name == "__len__":
            return Builtin(name, lambda a, k: mk(I.len_of(o)))
        if name == "__iter__":
            return Builtin(name, lambda a, k: iter_of(o))
        if name == "__contains__":
            return Builtin(name, lambda a, k: I.contains(o, a[0]))
        if name == "__getitem__":
            return Builtin(name, lambda a, k: raw_getitem(o, a[0]))
        return None
    return Builtin(f"{c}.{name}", lambda a, k: fn(o, a, k))


def raw_getitem(o: Any, k: Any) -> Any:
    if isinstance(o, (ListV, DictV)):
        return super_method(o, "__getitem__").fn([k], {})
    return getitem(o, k)


def const_str_method(o: Any, name: str, a: List[Any], k: Dict[str, Any]) -> Any:
    args = [x if not isinstance(x, ListV) else I.items_of(x) for x in a]
    if all(I.is_const(x) or isinstance(x, list) and all(I.is_const(y) for y in x) for x in args) and all(
        I.is_const(v) for v in k.values()
    ):
        r = I.pycall(getattr(o, name), *args, **k)
        if isinstance(r, list):
            return I.new_list([Item(x) for x in r])
        return r
    if name == "join":
        return str_join(o, a[0])
    if name == "format":
        return str_format(o, a, k)
    if name == "format_map":
        items = {x: y for x, y in (known_items(t) for t in known_items(I.call(I.getattr_(a[0], "items"), [])))}
        return str_format(o, [], items)
    if name in ("startswith", "endswith") and isinstance(a[0], Sym):
        subs = {o[:i] if name == "startswith" else o[i:] for i in range(len(o) + 1)}
        return S.in_lang(a[0].term, dfa.alt(*[dfa.lit(x) for x in sorted(subs)]))
    return undecided(f"str.{name}")


def str_join(sep: Any, v: Any) -> Any:
    segs = strip_raise(I.iter_segs(v))
    if all(isinstance(s, Item) for s in segs):
        out: Any = ""
        for i, s in enumerate(segs):
            if not I.isinst(s.v, I.STRC):
                throw(TypeError, "sequence item: expected str instance")
            if i:
                out = cat(out, sep)
            out = cat(out, s.v)
        return out
    if len(segs) == 1 and isinstance(segs[0], Each) and segs[0].dom[0] == "lines" and isinstance(sep, str) and sep.splitlines() in ([], [sep]):
        b = segs[0].cases
        if len(b) == 1 and not b[0][0] and len(b[0][1]) == 1 and isinstance(b[0][1][0], Item) and b[0][1][0].v.term[0:2] == ("fn", "line"):
            return Sym(("fn", "onelined", KSTR, segs[0].dom[1], sep))
    return Sym(("fn", "join", KSTR, I._term(sep), freeze_segs(segs)))


def sym_method(o: Sym, name: str) -> Any:
    t = o.term
    ks = S.kinds(t)
    if not ks <= set(I._KIND_PY):
        return undecided(f"{o!r}.{name}")
    have = frozenset(
        k for k in ks if hasattr(I._KIND_PY[k], name)
    )
    if not have or not S.is_kind(t, have):
        return None
    k = sorted(have)
    if len(k) > 1:
        for x in k[:-1]:
            if S.is_kind(t, frozenset([x])):
                break
        else:
            x = k[-1]
    else:
        x = k[0]
    fn = METHODS.get(("sym" + x, name))
    if fn is None:
        if name == "__getitem__":
            return Builtin(name, lambda a, kw: getitem(o, a[0]))
        if name == "__len__":
            return Builtin(name, lambda a, kw: mk(I.len_of(o)))
        if name == "__contains__":
            return Builtin(name, lambda a, kw: I.contains(o, a[0]))
        if name == "__iter__":
            return Builtin(name, lambda a, kw: iter_of(o))
        if name == "__class__":
            return I.typ(o)
        if x == STR:
            c = S.str_const(t)
            if c is not None:
                return method(c, name)
        return undecided(f"{x}.{name} of {o!r}")
    return Builtin(f"{x}.{name}", lambda a, kw: fn(o, a, kw))


METHODS: Dict[Tuple[str, str], Any] = {}


def meth(c: str, *names: str) -> Any:
    def deco(fn: Any) -> Any:
        for n in names:
            METHODS[(c, n)] = fn
        return fn

    return deco


def opt(a: List[Any], k: Dict[str, Any], i: int, name: str, dflt: Any = None) -> Any:
    return a[i] if len(a) > i else k.get(name, dflt)


# str (unknown)


@meth("symstr", "startswith")
def _sw(o: Sym, a: List[Any], k: Any) -> Any:
    if len(a) > 1:
        return undecided("startswith with a position")
    ps = a[0] if isinstance(a[0], tuple) else (a[0],)
    for p in ps:
        if isinstance(p, Sym):
            t = o.term
            if t[0] == "cat" and t[1] == p.term:
                return True
            return undecided("startswith an unknown prefix")
        if not isinstance(p, str):
            throw(TypeError, "startswith first arg must be str")
    return S.in_lang(o.term, dfa.seq(dfa.alt(*[dfa.lit(p) for p in ps]), dfa.ALL))


@meth("symstr", "endswith")
def _ew(o: Sym, a: List[Any], k: Any) -> Any:
    ps = a[0] if isinstance(a[0], tuple) else (a[0],)
    if len(a) > 1 or not all(isinstance(p, str) for p in ps):
        return undecided("endswith")
    return S.in_lang(o.term, dfa.seq(dfa.ALL, dfa.alt(*[dfa.lit(p) for p in ps])))


@meth("symstr", "isdigit")
def _isd(o: Sym, a: Any, k: Any) -> Any:
    return S.in_lang(o.term, str_class("isdigit"))


@meth("symstr", "isdecimal")
def _isdec(o: Sym, a: Any, k: Any) -> Any:
    return S.in_lang(o.term, str_class("isdecimal"))


@meth("symstr", "isnumeric")
def _isnum(o: Sym, a: Any, k: Any) -> Any:
    return S.in_lang(o.term, str_class("isnumeric"))


@meth("symstr", "isspace")
def _issp(o: Sym, a: Any, k: Any) -> Any:
    return S.in_lang(o.term, str_class("isspace"))


@meth("symstr", "isalpha")
def _isal(o: Sym, a: Any, k: Any) -> Any:
    return S.in_lang(o.term, str_class("isalpha"))


def str_fn(name: str) -> Any:
    def fn(o: Any, a: List[Any], k: Dict[str, Any]) -> Any:
        args = [I._term(x) if isinstance(x, (Sym, *CONST)) else freeze(x) for x in a]
        t = o.term
        if name in ("lstrip", "strip") and not a:
            if not S.in_lang(t, dfa.seq(str_class("isspace"), dfa.ALL)) and name == "lstrip":
                return o
            if name == "lstrip":
                r = lstripped(t)
                if r is not None:
                    return mk(r)
        if name == "replace" and isinstance(a[0], str) and isinstance(a[1], str) and len(a) == 2:
            if not strings.may_contain(t, a[0]):
                return o
            r = strings.replace(t, a[0], a[1])
            if r is not None:
                return mk(r)
        return Sym(("fn", name, KSTR, t, *args, *sorted(k.items())))

    return fn


def lstripped(t: Any) -> Any:
    """A joined text without leading blanks."""
    if not isinstance(t, tuple) or t[0] != "cat":
        return None
    parts = list(t[1:])
    while parts:
        p = parts[0]
        if isinstance(p, str):
            parts[0] = p.lstrip()
            if parts[0]:
                return cat_term(tuple(parts))
        elif not S.in_lang(p, dfa.star(str_class("isspace"))):
            if S.in_lang(p, dfa.seq(str_class("isspace"), dfa.ALL)):
                parts[0] = ("fn", "lstrip", KSTR, p)
            return cat_term(tuple(parts))
        parts.pop(0)
    return ""


for _n in ("lstrip", "rstrip", "strip", "replace", "lower", "upper", "casefold", "title", "removeprefix", "removesuffix", "zfill"):
    METHODS[("symstr", _n)] = str_fn(_n)


@meth("symstr", "split")
def _split(o: Sym, a: List[Any], k: Dict[str, Any]) -> Any:
    sep = opt(a, k, 0, "sep")
    if not isinstance(sep, str) or opt(a, k, 1, "maxsplit", -1) != -1:
        r = Sym(("fn", "split", KSTR, o.term, sep, opt(a, k, 1, "maxsplit", -1)))
        return undecided(f"split {r!r}")
    t = o.term
    if not S.consistent([("lang", t, dfa.seq(dfa.ALL, dfa.lit(sep), dfa.ALL))]):
        return I.new_list([Item(o)])
    if t[0] == "cat":
        # Only text that is known to have no separators is split.
        parts: List[Any] = [""]
        for p in t[1:]:
            if isinstance(p, str):
                ws = p.split(sep)
                parts[-1] = cat_term((parts[-1], ws[0]))
                parts.extend(ws[1:])
            elif len(sep) == 1 and not S.consistent(
                [("lang", p, dfa.seq(dfa.ALL, dfa.lit(sep), dfa.ALL))]
            ):
                parts[-1] = cat_term((parts[-1], p))
            else:
                break
        else:
            return I.new_list([Item(mk(p)) for p in parts])
    var = I.newvar()
    dom = ("split", t, sep)
    return I.new_list([Each(dom, var, (((), (Item(Sym(("fn", "piece", KSTR, dom, var))),)),))])


@meth("symstr", "splitlines")
def _splitlines(o: Sym, a: List[Any], k: Dict[str, Any]) -> Any:
    t = o.term
    if opt(a, k, 0, "keepends", False) is not False:
        return undecided("splitlines with line ends")
    if dfa.subset(S.lang(t), NO_BREAKS):
        return I.new_list([Item(o)] if I.truth(o) else [])
    var = I.newvar()
    dom = ("lines", t)
    return I.new_list([Each(dom, var, (((), (Item(Sym(("fn", "line", KSTR, dom, var))),)),))])


@meth("symstr", "encode")
def _encode(o: Sym, a: List[Any], k: Dict[str, Any]) -> Any:
    args = tuple(I._term(x) for x in a)
    if S.decide(("unencodable", o.term, args)):
        throw(UnicodeEncodeError, "unencodable")
    return Sym(("fn", "encode", frozenset(["bytes"]), o.term, *args))


@meth("symstr", "join")
def _sjoin(o: Sym, a: List[Any], k: Any) -> Any:
    return str_join(o, a[0])


@meth("str", "join")
def _cjoin(o: str, a: List[Any], k: Any) -> Any:
    return str_join(o, a[0])


@meth("symstr", "format")
def _sfmt(o: Sym, a: List[Any], k: Any) -> Any:
    return fmt_term("format", (o, tuple(a)))


# list


@meth("list", "append")
def _append(o: ListV, a: List[Any], k: Any) -> Any:
    appendf(o, "#segs", [Item(a[0])])
    trim(o)


def trim(o: ListV) -> None:
    n = o.f.get("#maxlen")
    if n is not None:
        setf(o, "#segs", tuple(last_n(getf(o, "#segs"), n)))


@meth("list", "extend")
def _extend(o: ListV, a: List[Any], k: Any) -> Any:
    appendf(o, "#segs", strip_raise(I.iter_segs(a[0])))
    trim(o)


@meth("list", "insert")
def _insert(o: ListV, a: List[Any], k: Any) -> Any:
    segs = list(getf(o, "#segs"))
    if a[0] == 0:
        setf(o, "#segs", (Item(a[1]), *segs))
        return
    if isinstance(a[0], int) and all(isinstance(s, Item) for s in segs):
        segs.insert(a[0], Item(a[1]))
        setf(o, "#segs", tuple(segs))
        return
    return undecided("list.insert")


@meth("list", "pop")
def _pop(o: ListV, a: List[Any], k: Any) -> Any:
    i = a[0] if a else -1
    segs = list(getf(o, "#segs"))
    v = seq_index(tuple(segs), i)
    if isinstance(i, int):
        j = i if i < 0 else i
        s = segs[j] if -len(segs) <= j < len(segs) else None
        if isinstance(s, Item) and (
            all(isinstance(x, Item) for x in segs[:j]) if j >= 0 else all(isinstance(x, Item) for x in segs[j:])
        ):
            del segs[j]
            setf(o, "#segs", tuple(segs))
            return v
    return undecided("list.pop")


@meth("list", "popleft")
def _popleft(o: ListV, a: List[Any], k: Any) -> Any:
    return _pop(o, [0], k)


@meth("list", "appendleft")
def _appendleft(o: ListV, a: List[Any], k: Any) -> Any:
    setf(o, "#segs", (Item(a[0]), *getf(o, "#segs")))


@meth("list", "extendleft")
def _extendleft(o: ListV, a: List[Any], k: Any) -> Any:
    for x in known_items(a[0]):
        _appendleft(o, [x], k)


@meth("list", "copy")
def _lcopy(o: ListV, a: List[Any], k: Any) -> Any:
    return ListV(o.cls, getf(o, "#segs"))


@meth("list", "clear")
@meth("set", "clear")
@meth("dict", "clear")
def _clear(o: Any, a: List[Any], k: Any) -> Any:
    setf(o, "#segs", ())


@meth("list", "reverse")
def _reverse(o: ListV, a: List[Any], k: Any) -> Any:
    setf(o, "#segs", tuple(reversed_segs(getf(o, "#segs"))))


@meth("list", "sort")
def _sort(o: ListV, a: List[Any], k: Any) -> Any:
    setf(o, "#segs", getf(sorted_of([o], k), "#segs"))


@meth("list", "index")
@meth("tuple", "index")
def _index(o: Any, a: List[Any], k: Any) -> Any:
    for i, x in enumerate(known_items(o)):
        if I.eq(x, a[0]):
            return i
    throw(ValueError, "not in list")


@meth("list", "count")
@meth("tuple", "count")
def _count(o: Any, a: List[Any], k: Any) -> Any:
    return sum(1 for x in known_items(o) if I.eq(x, a[0]))


@meth("list", "remove")
def _remove(o: ListV, a: List[Any], k: Any) -> Any:
    items = I.items_of(o)
    for i, x in enumerate(items):
        if I.eq(x, a[0]):
            del items[i]
            setf(o, "#segs", tuple(Item(y) for y in items))
            return
    throw(ValueError, "not in list")


@meth("set", "add")
def _add(o: ListV, a: List[Any], k: Any) -> Any:
    if not I.hashable(a[0]):
        throw(TypeError, "unhashable type")
    if not I.contains(o, a[0]):
        appendf(o, "#segs", [Item(a[0])])


@meth("set", "update")
def _supdate(o: ListV, a: List[Any], k: Any) -> Any:
    for it in a:
        for x in known_items(it):
            _add(o, [x], {})


@meth("set", "union")
def _sunion(o: ListV, a: List[Any], k: Any) -> Any:
    r = make_set(o.cls, [Item(x) for x in I.items_of(o)])
    _supdate(r, a, k)
    return r


@meth("set", "intersection")
def _sinter(o: ListV, a: List[Any], k: Any) -> Any:
    return make_set(o.cls, [Item(x) for x in I.items_of(o) if all(I.contains(c, x) for c in a)])


@meth("set", "difference")
def _sdiff(o: ListV, a: List[Any], k: Any) -> Any:
    return make_set(o.cls, [Item(x) for x in I.items_of(o) if not any(I.contains(c, x) for c in a)])


@meth("set", "isdisjoint")
def _sdisj(o: ListV, a: List[Any], k: Any) -> Any:
    return not any(I.contains(a[0], x) for x in I.items_of(o))


@meth("set", "issuperset")
def _ssuper(o: ListV, a: List[Any], k: Any) -> Any:
    return all(I.contains(o, x) for x in known_items(a[0]))


@meth("set", "copy")
def _scopy(o: ListV, a: List[Any], k: Any) -> Any:
    return make_set(o.cls, [Item(x) for x in I.items_of(o)])


@meth("set", "remove")
def _sremove(o: ListV, a: List[Any], k: Any) -> Any:
    if not I.contains(o, a[0]):
        return throw(KeyError, a[0])
    return _discard(o, a, k)


@meth("dict", "popitem")
def _popitem(o: DictV, a: List[Any], k: Any) -> Any:
    return I.call(I.load("spec.std").f["popitem"], [o])


@meth("set", "discard")
def _discard(o: ListV, a: List[Any], k: Any) -> Any:
    items = [x for x in I.items_of(o) if not I.eq(x, a[0])]
    setf(o, "#segs", tuple(Item(y) for y in items))


@meth("set", "issubset")
def _issubset(o: ListV, a: List[Any], k: Any) -> Any:
    return all(I.contains(a[0], x) for x in I.items_of(o))


# dict


@meth("dict", "get")
def _get(o: DictV, a: List[Any], k: Dict[str, Any]) -> Any:
    if not I.hashable(a[0]):
        throw(TypeError, "unhashable type")
    v = I.dict_find(o, a[0])
    return opt(a, k, 1, "default") if v is MISSING else v


@meth("dict", "items")
def _items(o: DictV, a: List[Any], k: Any) -> Any:
    return I.new_list(getf(o, "#segs"))


@meth("dict", "keys")
def _keys(o: DictV, a: List[Any], k: Any) -> Any:
    from . import loops

    return I.new_list(loops.map_segs(getf(o, "#segs"), lambda p: p[0]))


@meth("dict", "values")
def _values(o: DictV, a: List[Any], k: Any) -> Any:
    from . import loops

    return I.new_list(loops.map_segs(getf(o, "#segs"), lambda p: p[1]))


@meth("dict", "setdefault")
def _setdefault(o: DictV, a: List[Any], k: Any) -> Any:
    v = I.dict_find(o, a[0])
    if v is MISSING:
        v = a[1] if len(a) > 1 else None
        dict_set(o, a[0], v)
    return v


@meth("dict", "update")
def _update(o: DictV, a: List[Any], k: Dict[str, Any]) -> Any:
    if a:
        dict_update(o, a[0])
    for kk, v in k.items():
        dict_set(o, kk, v)


@meth("dict", "pop")
def _dpop(o: DictV, a: List[Any], k: Any) -> Any:
    v = I.dict_find(o, a[0])
    if v is MISSING:
        if len(a) > 1:
            return a[1]
        throw(KeyError, a[0])
    delitem(o, a[0])
    return v


@meth("dict", "copy")
def _dcopy(o: DictV, a: List[Any], k: Any) -> Any:
    return DictV(o.cls, getf(o, "#segs"))


@meth("symdict", "items")
def _sitems(o: Sym, a: List[Any], k: Any) -> Any:
    return I.new_list(I.dict_segs(o.term, lambda kk, c: (kk, c)))


@meth("symdict", "keys")
def _skeys(o: Sym, a: List[Any], k: Any) -> Any:
    return o


@meth("symdict", "values")
def _svalues(o: Sym, a: List[Any], k: Any) -> Any:
    return I.new_list(I.dict_segs(o.term, lambda kk, c: c))


@meth("symdict", "get")
def _sget(o: Sym, a: List[Any], k: Dict[str, Any]) -> Any:
    if I.has_key(o.term, a[0]):
        return member(o.term, key_term(a[0]))
    return opt(a, k, 1, "default")


@meth("symdict", "copy")
@meth("symlist", "copy")
def _scopy(o: Sym, a: List[Any], k: Any) -> Any:
    return Sym(("fn", "copy", S.kinds(o.term), o.term))


@meth("symdict", "pop")
def _spop(o: Sym, a: List[Any], k: Any) -> Any:
    if not I.has_key(o.term, a[0]):
        if len(a) > 1:
            return a[1]
        throw(KeyError, a[0])
    v = member(o.term, key_term(a[0]))
    S.effects.append(("delkey", o.term, key_term(a[0])))
    return v


@meth("symdict", "setdefault")
def _ssetdefault(o: Sym, a: List[Any], k: Any) -> Any:
    if I.has_key(o.term, a[0]):
        return member(o.term, key_term(a[0]))
    v = a[1] if len(a) > 1 else None
    S.effects.append(("setkey", o.term, key_term(a[0]), v))
    return v


@meth("symlist", "append")
def _sappend(o: Sym, a: List[Any], k: Any) -> Any:
    S.effects.append(("insert", o.term, I.len_of(o), a[0]))


@meth("symlist", "insert")
def _sinsert(o: Sym, a: List[Any], k: Any) -> Any:
    t = o.term
    i, n = I._term(a[0]), I.len_of(o)
    if not I.isinst(a[0], pyclass(int)):
        throw(TypeError, "integer required")
    if S.le0(ladd(i, 1)):
        i = ladd(i, n)
        if S.le0(i):
            i = 0
    elif S.le0(ladd(n, i, -1)):
        i = n
    S.effects.append(("insert", t, i, a[1]))


@meth("symlist", "pop")
def _slpop(o: Sym, a: List[Any], k: Any) -> Any:
    t = o.term
    i = norm_index(I._term(a[0]) if a else -1, I.len_of(o))
    v = element(t, i)
    S.effects.append(("delindex", t, i))
    return v


@meth("symfloat", "is_integer")
def _isint(o: Sym, a: List[Any], k: Any) -> Any:
    return S.decide(("is_integer", o.term))


# --- regular expressions --------------------------------------------------------------------


def regex_method(o: RegexV, name: str) -> Any:
    if name in ("pattern", "flags"):
        if name == "flags" and isinstance(o.pattern, str):
            return pyre.compile(o.pattern, o.flags).flags
        return getattr(o, name)
    if name in ("fullmatch", "match", "search"):
        return Builtin(name, lambda a, k: re_match(o, name, *a))
    if name in ("sub", "split", "finditer", "findall"):
        return Builtin(name, lambda a, k: re_other(o, name, a, k))
    if name == "groups":
        return pyre.compile(o.pattern, o.flags).groups
    return None


_relang: Dict[Any, Any] = {}


def re_lang(o: RegexV, kind: str) -> Any:
    key = (o.pattern, o.flags, kind)
    r = _relang.get(key)
    if r is None:
        try:
            r = {"fullmatch": dfa.fullmatch, "match": dfa.prefix, "search": dfa.search}[kind](
                o.pattern, o.flags
            )
        except (dfa.Unsupported, dfa.TooBig) as e:
            r = e
        _relang[key] = r
    if isinstance(r, Exception):
        return undecided(f"regular expression {o.pattern!r}: {r}")
    return r


def re_match(o: RegexV, kind: str, text: Any, *pos: Any) -> Any:
    if not I.isinst(text, I.STRC):
        throw(TypeError, "expected string or bytes-like object")
    if not isinstance(o.pattern, str):
        # A pattern that isn't known.
        t = ("rematch", kind, freeze(o), I._term(text))
        return MatchV(o, text, kind) if S.decide(t) else None
    if isinstance(text, str):
        m = getattr(pyre.compile(o.pattern, o.flags), kind)(text, *pos)
        return None if m is None else MatchV(o, text, kind, m)
    if pos:
        return undecided("matching at a position")
    if S.in_lang(text.term, re_lang(o, kind)):
        return MatchV(o, text, kind)
    return None


def match_group(m: MatchV, g: Any = 0) -> Any:
    if m.m is not None and I.is_const(g):
        return I.pycall(m.m.group, g)
    t = m.text.term
    if g == 0 and m.kind == "fullmatch":
        return m.text
    if not isinstance(m.regex.pattern, str):
        return undecided("a group of an unknown pattern")
    return Sym(("group", freeze(m.regex), m.kind, g, t)) if group_always(m, g) else opt_group(m, g)


def group_always(m: MatchV, g: Any) -> bool:
    return False


def opt_group(m: MatchV, g: Any) -> Any:
    from . import regroups

    return regroups.group(m, g)


def at_example(m: MatchV) -> None:
    """Look at some of the strings that a pattern matches, one by one.

    All the others are left undecided.
    """
    if not isinstance(m.text, Sym) or not isinstance(m.regex.pattern, str):
        return
    rx = pyre.compile(m.regex.pattern, m.regex.flags)
    seen: Dict[Any, str] = {}
    letters = [c for c in dict.fromkeys(m.regex.pattern) if c.isalnum()][:5]
    tries = ["".join(w) for n in range(4) for w in itertools.product([*letters, "?"], repeat=n)]
    for w in dfa.words(re_lang(m.regex, m.kind), 60, 4) + tries:
        r = getattr(rx, m.kind)(w)
        if r is not None:
            seen.setdefault((r.end() == len(w), rx.fullmatch(w) is not None, r.start() == 0), w)
    for w in seen.values():
        if S.in_lang(m.text.term, dfa.lit(w)):
            m.m = getattr(rx, m.kind)(w)
            m.text = w
            return


def match_method(m: MatchV, name: str) -> Any:
    if m.m is not None:
        if name in ("lastgroup", "lastindex", "pos", "endpos", "string"):
            return getattr(m.m, name)
        if name == "re":
            return m.regex
        if name == "groupdict":
            return Builtin(name, lambda a, k: from_py(m.m.groupdict(*a)))
        if name in ("group", "groups", "start", "end", "span", "__getitem__", "expand"):
            return Builtin(name, lambda a, k: I.pycall(getattr(m.m, name), *a))
    if name == "group":
        return Builtin(
            name,
            lambda a, k: match_group(m, *a)
            if len(a) <= 1
            else tuple(match_group(m, x) for x in a),
        )
    if name == "groupdict":
        names = pyre.compile(m.regex.pattern, m.regex.flags).groupindex

        def gd(a: Any, k: Any) -> Any:
            return DictV(I.DICTC, tuple(Item((n, match_group(m, n))) for n in names))

        return Builtin(name, gd)
    if name == "groups":
        n = pyre.compile(m.regex.pattern, m.regex.flags).groups
        return Builtin(name, lambda a, k: tuple(match_group(m, i + 1) for i in range(n)))
    if name in ("start", "end", "span"):
        at_example(m)
        if m.m is not None:
            return Builtin(name, lambda a, k: I.pycall(getattr(m.m, name), *a))
        return undecided("positions in a match")
    if name == "__getitem__":
        return Builtin(name, lambda a, k: match_group(m, a[0]))
    return None


def re_other(o: RegexV, name: str, a: List[Any], k: Dict[str, Any]) -> Any:
    if all(I.is_const(x) for x in a) and isinstance(o.pattern, str) and name in ("sub", "split", "findall"):
        r = I.pycall(getattr(pyre.compile(o.pattern, o.flags), name), *a, **k)
        return I.new_list([Item(x) for x in r]) if isinstance(r, list) else r
    if name == "finditer" and all(I.is_const(x) for x in a) and isinstance(o.pattern, str):
        ms = I.pycall(lambda: list(pyre.compile(o.pattern, o.flags).finditer(*a)))
        segs = tuple(Item(MatchV(o, a[0], "finditer", m)) for m in ms)
        return I.gen(lambda: segs, name=name)
    return undecided(f"re {name}")


def re_compile(a: List[Any], k: Dict[str, Any]) -> Any:
    p = a[0]
    flags = opt(a, k, 1, "flags", 0)
    if isinstance(p, RegexV):
        return p
    if isinstance(p, str) and isinstance(flags, int):
        I.pycall(pyre.compile, p, int(flags))
        return RegexV(p, int(flags))
    if not I.isinst(p, I.STRC):
        throw(TypeError, "first argument must be string or compiled pattern")
    if isinstance(p, Sym):
        bad = ("badregex", p.term, I._term(flags) if isinstance(flags, (int, Sym)) else freeze(flags))
        if S.decide(bad):
            if WORLD.get("every regex error"):
                if S.decide(("toobig", *bad)):
                    throw(OverflowError, "the repetition number is too large")
                if S.decide(("flags", *bad)):
                    throw(ValueError, "ASCII and UNICODE flags are incompatible")
            throw(pyre.error, "bad pattern")
        return RegexV(p, flags if isinstance(flags, (int, Sym)) else 0)
    return undecided("re.compile")


# --- builtins --------------------------------------------------------------------------------

BUILTINS: Dict[str, Any] = {}


def bi(name: str) -> Any:
    def deco(fn: Any) -> Any:
        BUILTINS[name] = Builtin(name, fn)
        return fn

    return deco


def builtin(name: str) -> Any:
    b = BUILTINS.get(name)
    if b is not None:
        return b
    v = getattr(pybuiltins, name, None)
    if isinstance(v, type):
        return pyclass(v)
    if name in ("NotImplemented", "Ellipsis"):
        return Ext(name)
    if name == "__debug__":
        return True
    if name == "__file__":
        return "file.py"
    if v is not None:
        return Ext(f"builtins.{name}")
    return None


@bi("isinstance")
def _isinstance(a: List[Any], k: Any) -> Any:
    return I.isinst(a[0], a[1])


@bi("issubclass")
def _issubclass(a: List[Any], k: Any) -> Any:
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(I.subclass(a[0], c) for c in cs)


@bi("len")
def _len(a: List[Any], k: Any) -> Any:
    return mk(I.len_of(a[0]))


@bi("any")
def _any(a: List[Any], k: Any) -> Any:
    from . import loops

    return loops.any_segs(I.iter_segs(a[0]), I.truth)


@bi("all")
def _all(a: List[Any], k: Any) -> Any:
    from . import loops

    return not loops.any_segs(I.iter_segs(a[0]), lambda v: not I.truth(v))


def lazy(fn: Any, name: str) -> Any:
    return I.gen(fn, name=name)


def iter_of(v: Any) -> Any:
    if isinstance(v, IterV):
        return v
    if isinstance(v, Inst) and not isinstance(v, (ListV, DictV)):
        m = I.find_attr(v.cls, "__iter__")
        if m is not MISSING:
            return I.call(I.bind(m, v), [])
        throw(TypeError, "not iterable")
    if isinstance(v, CONST) and not isinstance(v, (str, bytes)):
        throw(TypeError, "not iterable")
    if isinstance(v, Sym) and S.kinds(v.term) <= set(I._KIND_PY):
        if not S.is_kind(v.term, frozenset([LIST, DICT, STR])):
            throw(TypeError, "not iterable")
    return lazy(lambda: I.iter_segs(v), "iter")


@bi("iter")
def _iter(a: List[Any], k: Any) -> Any:
    if len(a) > 1:
        return undecided("iter with a sentinel")
    return iter_of(a[0])


@bi("aiter")
def _aiter(a: List[Any], k: Any) -> Any:
    return a[0]


def started(it: IterV) -> Tuple:
    rem = getf(it, "#rem")
    if rem is None:
        rem = it.thunk()
        quietf(it, "#rem", tuple(rem))
    if isinstance(rem, Poison):
        return undecided("a partly consumed iterator")
    return rem


def next_of(it: Any, *default: Any) -> Any:
    from . import loops

    if isinstance(it, Inst):
        m = I.find_attr(it.cls, "__next__")
        if m is MISSING:
            throw(TypeError, "not an iterator")
        try:
            return I.call(I.bind(m, it), [])
        except Raised as e:
            if default and e.exc.cls.py is StopIteration:
                return default[0]
            raise
    if isinstance(it, Opaque) and "__next__" in it.attrs:
        return I.call(it.attrs["__next__"], [])
    if not isinstance(it, IterV):
        if isinstance(it, Ext):
            return undecided("next")
        throw(TypeError, "not an iterator")
    rem = started(it)
    for i, s in enumerate(rem):
        if isinstance(s, Item):
            setf(it, "#rem", tuple(rem[i + 1 :]))
            return s.v
        if isinstance(s, RaiseSeg):
            setf(it, "#rem", ())
            raise Raised(s.exc)
        if plain_each(s) and s.dom[0] == "range" and s.dom[3] == 1:
            lo, hi = s.dom[1], s.dom[2]
            if S.le0(ladd(hi, lo, -1)):
                continue
            e = loops.shifted(s, S.depth + 1)
            v = loops.instantiate(e, lo).cases[0][1][0].v
            rest = Each(("range", ladd(lo, 1), hi, 1), s.var, s.cases)
            setf(it, "#rem", (rest, *rem[i + 1 :]))
            return v
        ctl = loops.loop_each(s, lambda v: (I.RETURN, v))
        if isinstance(ctl, tuple):
            setf(it, "#rem", POISON)
            return ctl[1]
    setf(it, "#rem", ())
    if default:
        return default[0]
    return throw(StopIteration)


@bi("next")
def _next(a: List[Any], k: Any) -> Any:
    return next_of(*a)


@bi("anext")
def _anext(a: List[Any], k: Any) -> Any:
    return undecided("anext")


@bi("enumerate")
def _enumerate(a: List[Any], k: Dict[str, Any]) -> Any:
    start = opt(a, k, 1, "start", 0)

    def thunk() -> Tuple:
        out: List[Any] = []
        n: Any = I._term(start)
        for s in I.iter_segs(a[0]):
            if isinstance(s, Item):
                out.append(Item((mk(n), s.v)))
                n = ladd(n, 1)
            elif isinstance(s, RaiseSeg):
                out.append(s)
            elif plain_each(s):
                i: Any = s.var
                if s.dom[0] == "range":
                    if s.dom[3] != 1:
                        return undecided("enumerate over a stepped range")
                    i = ladd(s.var, s.dom[1], -1)
                item = s.cases[0][1][0].v
                out.append(
                    Each(s.dom, s.var, (((), (Item((mk(ladd(n, i)), item)),)),))
                )
                n = ladd(n, I.dom_count(s))
            else:
                out.append(
                    Each(s.dom, s.var, tuple((g, num(x)) for g, x in s.cases))
                )
                n = ("ordinal-after", freeze_segs((s,)))
        return tuple(out)

    def num(segs: Tuple) -> Tuple:
        if segs:
            return undecided("enumerate over a filtered sequence")
        return segs

    return lazy(thunk, "enumerate")


@bi("zip")
def _zip(a: List[Any], k: Dict[str, Any]) -> Any:
    return lazy(lambda: zip_of(a), "zip")


def zip_of(args: List[Any]) -> Tuple:
    """zip(*args), leaving iterators where it stops."""
    from . import loops

    cols = [list(I.iter_segs(x)) for x in args]
    out = zip_segs(cols)
    if any(isinstance(x, IterV) for x in args):
        ended = next((i for i, c in enumerate(cols) if not c), None)
        for i, (x, c) in enumerate(zip(args, cols)):
            if not isinstance(x, IterV) or not c:
                continue
            if ended is None or any(isinstance(s, Each) and s.dom[0] == "stream" for s in c):
                setf(x, "#rem", POISON)
                continue
            setf(x, "#rem", tuple(c))
            if i < ended:
                next_of(x, None)
    _ = loops
    return out


def zip_segs(cols: List[List[Any]]) -> Tuple:
    from . import loops

    out: List[Any] = []
    while all(cols):
        heads = [c[0] for c in cols]
        for h in heads:
            if isinstance(h, RaiseSeg):
                out.append(h)
                return tuple(out)
        if all(isinstance(h, Item) for h in heads):
            out.append(Item(tuple(h.v for h in heads)))
            for c in cols:
                c.pop(0)
            continue
        if all(isinstance(h, Each) and plain_each(h) for h in heads):
            hs = [loops.shifted(h, S.depth + 1) for h in heads]
            d0 = hs[0].dom
            if all(h.dom == d0 for h in hs):
                var = hs[0].var
                vals = tuple(h.cases[0][1][0].v for h in hs)
                out.append(Each(d0, var, (((), (Item(vals),)),)))
                for c in cols:
                    c.pop(0)
                continue
            if all(h.dom[0] in ("range", "members") for h in hs):
                # Align by ordinal.
                steps = {h.dom[3] if h.dom[0] == "range" else 1 for h in hs}
                if steps == {1}:
                    los = [h.dom[1] if h.dom[0] == "range" else 0 for h in hs]
                    ns = [I.dom_count(h) for h in hs]
                    n = ns[0]
                    short = 0
                    for i, m in enumerate(ns[1:], 1):
                        if not S.le0(ladd(n, m, -1)):
                            n = m
                            short = i
                    var = hs[0].var
                    vals = []
                    for h, lo in zip(hs, los):
                        d = ladd(ladd(var, lo), los[short], -1)
                        vals.append(
                            loops.subst(
                                h.cases[0][1][0].v,
                                lambda v, d=d, l=h.var[1]: d if v[1] == l else v,
                            )
                        )
                    dom = hs[short].dom
                    out.append(Each(dom, var, (((), (Item(tuple(vals)),)),)))
                    for i, c in enumerate(cols):
                        h = c.pop(0)
                        if i == short or S.eq0(ladd(ns[i], n, -1)):
                            continue
                        if h.dom[0] == "range":
                            c.insert(0, Each(("range", ladd(h.dom[1], n), h.dom[2], 1), h.var, h.cases))
                        else:
                            c.insert(0, Each(("stream", h.dom), h.var, h.cases))
                    continue
        if any(expand(c) for c in cols):
            continue
        if any(isinstance(h, Item) for h in heads) and any([peel(c) for c in cols]):
            continue
        return undecided("zip of sequences that aren't aligned")
    return tuple(out)


def expand(col: List[Any]) -> bool:
    """Replace a loop over a known range at the start of _col_ by its items."""
    from . import loops

    h = col[0]
    if not isinstance(h, Each) or not plain_each(h) or h.dom[0] != "range":
        return False
    _, lo, hi, step = h.dom
    if not all(isinstance(x, int) for x in (lo, hi, step)) or len(range(lo, hi, step)) > 64:
        return False
    out: List[Any] = []
    for i in range(lo, hi, step):
        out.extend(loops.instantiate(h, i).cases[0][1])
    col[:1] = out
    return True


def peel(col: List[Any]) -> bool:
    """Split the first item off a loop at the start of _col_."""
    from . import loops

    h = col[0]
    if not isinstance(h, Each) or not plain_each(h) or h.dom[0] != "range":
        return False
    _, lo, hi, step = h.dom
    if not isinstance(step, int) or not loops.nonempty(h.dom):
        if isinstance(step, int):
            col.pop(0)
            return True
        return False
    first = loops.instantiate(h, lo).cases[0][1]
    col[:1] = [*first, Each(("range", ladd(lo, step), hi, step), h.var, h.cases)]
    return True


@bi("map")
def _map(a: List[Any], k: Any) -> Any:
    from . import loops

    if len(a) == 2:
        return lazy(lambda: loops.map_run(I.iter_segs(a[1]), lambda v: I.call(a[0], [v])), "map")
    return lazy(
        lambda: loops.map_run(
            zip_of(a[1:]), lambda v: I.call(a[0], list(v))
        ),
        "map",
    )


@bi("filter")
def _filter(a: List[Any], k: Any) -> Any:
    from . import loops

    p = (lambda v: I.truth(v)) if a[0] is None else (lambda v: I.truth(I.call(a[0], [v])))
    return lazy(lambda: loops.filter_run(I.iter_segs(a[1]), p), "filter")


def reversed_segs(segs: Tuple) -> Tuple:
    out: List[Any] = []
    for s in reversed(segs):
        if isinstance(s, Each):
            if not plain_each(s):
                return undecided("reversing a filtered sequence")
            if s.dom[0] == "range" and s.dom[3] == 1:
                out.append(
                    Each(("range", ladd(s.dom[2], -1), ladd(s.dom[1], -1), -1), s.var, s.cases)
                )
            elif s.dom[0] == "range" and s.dom[3] == -1:
                out.append(
                    Each(("range", ladd(s.dom[2], 1), ladd(s.dom[1], 1), 1), s.var, s.cases)
                )
            elif s.dom[0] == "reversed":
                out.append(Each(s.dom[1], s.var, s.cases))
            else:
                out.append(Each(("reversed", s.dom), s.var, s.cases))
        else:
            out.append(s)
    return tuple(out)


@bi("reversed")
def _reversed(a: List[Any], k: Any) -> Any:
    v = a[0]
    if isinstance(v, IterV):
        throw(TypeError, "not reversible")
    return lazy(lambda: reversed_segs(I.iter_segs(v)), "reversed")


def sorted_of(a: List[Any], k: Dict[str, Any]) -> Any:
    import functools

    segs = I.iter_segs(a[0])
    key = k.get("key")
    rev = k.get("reverse", False)
    if any(not isinstance(s, Item) for s in segs):
        if len(segs) == 1 and isinstance(segs[0], Each) and plain_each(segs[0]):
            try:
                kf = None if key is None else freeze(key)
            except Undecided:
                kf = None
            e = segs[0]
            return I.new_list([Each(("sorted", freeze_segs(segs), kf, bool(rev)), e.var, e.cases)])
        return undecided("sorting an unknown sequence")
    items = [s.v for s in segs]
    keys = [I.call(key, [x]) if key is not None else x for x in items]

    def cmp(i: int, j: int) -> int:
        if I.compare_lt(keys[i], keys[j]):
            return -1
        if I.compare_lt(keys[j], keys[i]):
            return 1
        return 0

    order = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=bool(rev))
    return I.new_list([Item(items[i]) for i in order])


@bi("sorted")
def _sorted(a: List[Any], k: Any) -> Any:
    return sorted_of(a, k)


def minmax(a: List[Any], k: Dict[str, Any], less: Any) -> Any:
    items = known_items(a[0]) if len(a) == 1 else a
    if not items:
        if "default" in k:
            return k["default"]
        throw(ValueError, "empty sequence")
    key = k.get("key")
    best = items[0]
    bk = I.call(key, [best]) if key else best
    for x in items[1:]:
        xk = I.call(key, [x]) if key else x
        if less(xk, bk):
            best, bk = x, xk
    return best


@bi("min")
def _min(a: List[Any], k: Any) -> Any:
    return minmax(a, k, I.compare_lt)


@bi("max")
def _max(a: List[Any], k: Any) -> Any:
    return minmax(a, k, lambda x, y: I.compare_lt(y, x))


@bi("sum")
def _sum(a: List[Any], k: Any) -> Any:
    out: Any = opt(a, k, 1, "start", 0)
    for x in known_items(a[0]):
        out = binop(ast.Add(), out, x)
    return out


@bi("abs")
def _abs(a: List[Any], k: Any) -> Any:
    v = a[0]
    if isinstance(v, CONST):
        return I.pycall(abs, v)
    if isinstance(v, Sym) and I.typ(v) is pyclass(int):
        return mk(lmul(v.term, -1)) if S.le0(v.term) else v
    return undecided("abs")


@bi("repr")
def _repr(a: List[Any], k: Any) -> Any:
    return repr_(a[0])


@bi("ascii")
def _ascii(a: List[Any], k: Any) -> Any:
    return fmt_term("ascii", a[0])


@bi("format")
def _format(a: List[Any], k: Any) -> Any:
    return format_(a[0], opt(a, k, 1, "spec", ""))


@bi("callable")
def _callable(a: List[Any], k: Any) -> Any:
    v = a[0]
    if isinstance(v, (FuncV, BoundV, Builtin, ClassV)):
        return True
    if isinstance(v, Inst):
        return I.find_attr(v.cls, "__call__") is not MISSING
    if isinstance(v, Opaque):
        return "__call__" in v.attrs
    if isinstance(v, (Sym, *CONST, tuple)):
        return False
    return undecided("callable")


@bi("getattr")
def _getattr(a: List[Any], k: Any) -> Any:
    if not isinstance(a[1], str):
        return undecided("getattr of an unknown name")
    if len(a) == 2:
        return I.getattr_(a[0], a[1])
    try:
        v = I.getattr_or(a[0], a[1])
    except Raised as e:
        if I.subclass(e.exc.cls, pyclass(AttributeError)):
            return a[2]
        raise
    if v is MISSING:
        if isinstance(a[0], (Ext, Poison)):
            return undecided("getattr")
        return a[2]
    return v


@bi("hasattr")
def _hasattr(a: List[Any], k: Any) -> Any:
    o, name = a
    if isinstance(o, Sym):
        ks = S.kinds(o.term)
        if not ks <= set(I._KIND_PY):
            return undecided("hasattr")
        yes = frozenset(x for x in ks if hasattr(I._KIND_PY[x], name))
        if name == "__getitem_async__":
            # Values may bring an asynchronous getter of their own.
            r = S.truth(("hasattr", o.term, name))
            return bool(r)
        return S.is_kind(o.term, yes) if yes else False
    if isinstance(o, CONST) or isinstance(o, tuple):
        return hasattr(o, name)
    v = I.getattr_or(o, name)
    if v is MISSING and isinstance(o, (Ext, Poison)):
        return undecided("hasattr")
    return v is not MISSING


@bi("setattr")
def _setattr(a: List[Any], k: Any) -> Any:
    I.setattr_(a[0], a[1], a[2])


@bi("print")
def _print(a: List[Any], k: Dict[str, Any]) -> Any:
    if "print" in WORLD:
        return I.call(WORLD["print"], a, k)
    f = k.get("file")
    S.effects.append(("print", freeze(f) if f is not None else "stdout", tuple(a), freeze(k.get("end", "\n"))))


def hash_(v: Any) -> Any:
    if isinstance(v, Inst):
        m = I.find_attr(v.cls, "__hash__")
        if m is not MISSING and m is not None:
            return I.call(I.bind(m, v), [])
    if not I.hashable(v):
        throw(TypeError, "unhashable type")
    return Sym(("fn", "hash", KINT, freeze(v)))


@bi("hash")
def _hash(a: List[Any], k: Any) -> Any:
    return hash_(a[0])


@bi("id")
def _id(a: List[Any], k: Any) -> Any:
    v = a[0]
    return Sym(("fn", "id", KINT, v.term if isinstance(v, Sym) else ("obj", id(v))))


@bi("super")
def _super(a: List[Any], k: Any) -> Any:
    if len(a) == 2:
        cls = a[1] if isinstance(a[1], ClassV) else I.typ(a[1])
        return I.SuperV(cls.mro[cls.mro.index(a[0]) + 1 :], a[1])
    return undecided("super")


@bi("ord")
def _ord(a: List[Any], k: Any) -> Any:
    if isinstance(a[0], str):
        return I.pycall(ord, a[0])
    return Sym(("fn", "ord", KINT, I._term(a[0])))


@bi("chr")
def _chr(a: List[Any], k: Any) -> Any:
    if isinstance(a[0], int):
        return I.pycall(chr, a[0])
    return Sym(("fn", "chr", KSTR, I._term(a[0])))


@bi("round")
def _round(a: List[Any], k: Any) -> Any:
    return undecided("round")


@bi("vars")
def _vars(a: List[Any], k: Any) -> Any:
    return undecided("vars")


# A model of the process around the program, if there is one.
WORLD: Dict[str, Any] = {}
_BREAKS = dfa.cs(*[(ord(c), ord(c)) for c in "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"])
NO_BREAKS = dfa.star(dfa.char(dfa.cneg(_BREAKS)))
ONLY_BREAKS = dfa.star(dfa.char(_BREAKS))


@bi("open")
def _open(a: List[Any], k: Dict[str, Any]) -> Any:
    if "open" in WORLD:
        return I.call(WORLD["open"], a, k)
    S.effects.append(("open", freeze(tuple(a)), tuple(sorted((x, freeze(v)) for x, v in k.items()))))
    return Opaque("file", {})


# --- construction of builtin types -----------------------------------------------------------


def builtin_init(o: Any, args: List[Any], kwargs: Dict[str, Any]) -> None:
    if isinstance(o, ListV):
        if args:
            o.f["#segs"] = strip_raise(I.iter_segs(args[0]))
        n = opt(args, kwargs, 1, "maxlen")
        if n is not None:
            o.f["#maxlen"] = n
            trim(o)
    elif isinstance(o, DictV):
        if args:
            dict_update(o, args[0])
        for k, v in kwargs.items():
            dict_set(o, k, v)


def last_n(segs: Tuple, n: Any) -> Tuple:
    """The last n elements."""
    total = I.segs_len(segs)
    if I.is_const(n) and isinstance(n, int) and n < 0:
        throw(ValueError, "maxlen must be non-negative")
    if isinstance(n, Sym) and S.le0(ladd(n.term, 1)):
        throw(ValueError, "maxlen must be non-negative")
    nt = I._term(n)
    if not isinstance(nt, (int, tuple)):
        throw(TypeError, "an integer is required")
    if isinstance(nt, int) and isinstance(total, int):
        return segs[max(0, total - nt) :]
    if len(segs) == 1 and plain_each(segs[0]) and segs[0].dom[0] == "range" and segs[0].dom[3] == 1:
        e = segs[0]
        if S.le0(ladd(total, nt, -1)):
            return segs
        return (Each(("range", ladd(e.dom[2], nt, -1), e.dom[2], 1), e.var, e.cases),)
    if not segs:
        return segs
    return undecided("the last elements of an unknown sequence")


def construct(c: ClassV, args: List[Any], kwargs: Dict[str, Any]) -> Any:
    py = c.py
    if py is bool:
        return I.truth(args[0]) if args else False
    if py is str:
        if len(args) > 1:
            return undecided("str of bytes")
        return str_(args[0]) if args else ""
    if py is int:
        return int_of(*args) if args else 0
    if py is float:
        return float_of(*args) if args else 0.0
    if py is object:
        return Inst(c)
    if py in (list, collections.deque):
        o: Any = ListV(c)
        builtin_init(o, args, kwargs)
        return o
    if py is tuple:
        if not args:
            return ()
        segs = strip_raise(I.iter_segs(args[0]))
        if all(isinstance(s, Item) for s in segs):
            return tuple(s.v for s in segs)
        return TupV(segs)
    if py in (dict, collections.OrderedDict):
        o = DictV(pyclass(dict))
        builtin_init(o, args, kwargs)
        return o
    if py is collections.defaultdict:
        return I.call(I.load("spec.std").f["defaultdict"], args, kwargs)
    if issubclass(py, pyre.RegexFlag):
        return int_of(*args)
    if py in (set, frozenset):
        return make_set(c, list(I.iter_segs(args[0])) if args else [])
    if py is range:
        for x in args:
            if not I.isinst(x, pyclass(int)):
                throw(TypeError, "'object' cannot be interpreted as an integer")
        lo, hi, step = (0, args[0], 1) if len(args) == 1 else (*args, 1)[:3]
        if isinstance(step, int) and step == 0 or isinstance(step, Sym) and S.eq0(step.term):
            throw(ValueError, "range() arg 3 must not be zero")
        return RangeV(lo, hi, step)
    if py is slice:
        if len(args) == 1:
            return SliceV(None, args[0], None)
        return SliceV(*(list(args) + [None])[:3])
    if py is type:
        if len(args) == 1:
            return I.typ(args[0])
        return undecided("type()")
    if py in (enumerate, zip, map, filter, reversed):
        return BUILTINS[py.__name__].fn(args, kwargs)
    if py is property:
        return Wrap("property", args[0])
    if py in (staticmethod, classmethod):
        return Wrap(py.__name__, args[0])
    if py is bytes:
        return undecided("bytes")
    if py is pyre.Pattern:
        return undecided("Pattern")
    if issubclass(py, BaseException):
        return I.new_exc(c, *args)
    return undecided(f"{c.name}()")


def construct_namedtuple(c: ClassV, args: List[Any], kwargs: Dict[str, Any]) -> Any:
    if not any("#namedtuple" in b.f for b in c.mro):
        return undecided("a tuple subclass")
    o = Inst(c)
    I.call(I.bind(I.find_attr(c, "__init__"), o), args, kwargs)
    return o


def percent(fmt: str, b: Any) -> Any:
    """fmt % b"""
    if isinstance(b, (tuple, TupV)):
        args = list(b) if isinstance(b, tuple) else known_items(b)
        it: Optional[Iterator[Any]] = iter(args)
    else:
        args = [b]
        it = iter(args)
    out: Any = ""
    at = 0
    used = 0
    for m in pyre.finditer(r"%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", fmt, pyre.S):
        out = cat(out, fmt[at : m.start()])
        at = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out = cat(out, "%")
            continue
        if key is not None:
            v = getitem(b, key)
            used = len(args)
        else:
            v = next(it, MISSING)
            if v is MISSING:
                return throw(TypeError, "not enough arguments for format string")
            used += 1
        if flags or width or prec or conv not in "srdiu":
            if isinstance(v, CONST) and "*" not in (width, prec):
                try:
                    out = cat(out, ("%" + (flags or "") + (width or "") + ("." + prec if prec else "") + conv) % v)
                except (TypeError, ValueError) as e:
                    return throw(type(e), *e.args)
                continue
            return fmt_term("%", (fmt, b))
        if conv in "diu":
            t = I.typ(v)
            if t is pyclass(bool):
                v = int_of(v)
            elif t is not pyclass(int):
                if t is I.STRC or v is None or isinstance(v, (ListV, DictV, tuple, TupV)):
                    return throw(TypeError, "%d format: a real number is required")
                return fmt_term("%", (fmt, b))
        out = cat(out, repr_(v) if conv == "r" else str_(v))
    if "%" in pyre.sub(r"%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", "", fmt, flags=pyre.S):
        return throw(ValueError, "incomplete format")
    if used < len(args) and not isinstance(b, DictV):
        return throw(TypeError, "not all arguments converted during string formatting")
    return cat(out, fmt[at:])


def str_format(fmt: str, a: List[Any], k: Dict[str, Any]) -> Any:
    """fmt.format(*a, **k)"""
    auto = 0

    def run(f: str) -> Any:
        nonlocal auto
        out: Any = ""
        try:
            parts = list(string.Formatter().parse(f))
        except ValueError as e:
            return throw(ValueError, *e.args)
        for lit, name, spec, conv in parts:
            out = cat(out, lit)
            if name is None:
                continue
            first, rest = _string.formatter_field_name_split(name)
            if first == "":
                first = auto
                auto += 1
            if isinstance(first, int):
                if first >= len(a):
                    return throw(IndexError, "Replacement index out of range")
                v = a[first]
            elif first in k:
                v = k[first]
            else:
                return throw(KeyError, first)
            for is_attr, n in rest:
                v = I.getattr_(v, n) if is_attr else getitem(v, n)
            if conv == "r":
                v = repr_(v)
            elif conv == "a":
                v = fmt_term("ascii", v)
            sp = run(spec) if spec else ""
            if conv == "s" or sp == "":
                v = str_(v)
            if sp != "":
                v = format_(v, sp)
            out = cat(out, v)
        return out

    return run(fmt)


def namedtuple_(a: List[Any], k: Dict[str, Any]) -> Any:
    from . import synth

    fields = a[1] if len(a) > 1 else k["field_names"]
    fs = fields.replace(",", " ").split() if isinstance(fields, str) else known_items(fields)
    c = ClassV(a[0], [I.TUPLEC], ModuleV("collections"), None)
    ds = known_items(k["defaults"]) if k.get("defaults") is not None else []
    return synth.namedtuple(c, list(fs), dict(zip(fs[len(fs) - len(ds) :], ds)))


def class_attr(c: ClassV, name: str) -> Any:
    if name == "__mro__":
        return tuple(c.mro)
    if name == "__bases__":
        return tuple(c.bases)
    if name == "__module__":
        return getattr(c.module, "name", "builtins")
    if name == "__doc__":
        return None
    if c.py is not None:
        if name == "__new__":
            return Builtin("__new__", lambda a, k: Inst(a[0]))
        if name == "fromkeys" and issubclass(c.py, dict):
            return std("fromkeys")
        if name in ("fromkeys", "from_iterable", "maketrans"):
            return undecided(f"{c.name}.{name}")
        if name == "__setattr__" and c.py is object:
            return Builtin(name, lambda a, k: setf(a[0], a[1], a[2]))
        if c.py is pyre.RegexFlag and isinstance(getattr(c.py, name, None), int):
            return int(getattr(c.py, name))
        if hasattr(c.py, name):
            # An unbound method.
            def unbound(a: List[Any], k: Dict[str, Any]) -> Any:
                if isinstance(a[0], (ListV, DictV)) and I._user_attr(a[0].cls, name):
                    b = super_method(a[0], name)
                else:
                    b = I.getattr_(a[0], name)
                return I.call(b, a[1:], k)

            return Builtin(f"{c.name}.{name}", unbound)
    return MISSING


def super_method(o: Any, name: str) -> Any:
    """The builtin base class's method."""
    if isinstance(o, (ListV, DictV)):
        c = "dict" if isinstance(o, DictV) else ("set" if I._setlike(o) else "list")
        fn = METHODS.get((c, name))
        if fn is not None:
            return Builtin(name, lambda a, k: fn(o, a, k))
        plain: Any
        if name == "__init__":

            def init(a: List[Any], k: Dict[str, Any]) -> Any:
                builtin_init(o, a, k)

            return Builtin(name, init)
        if name == "__setitem__" and isinstance(o, DictV):
            return Builtin(name, lambda a, k: dict_set(o, a[0], a[1]))
        if name == "__getitem__":

            def get(a: List[Any], k: Any) -> Any:
                if isinstance(o, DictV):
                    v = I.dict_find(o, a[0])
                    return throw(KeyError, a[0]) if v is MISSING else v
                return getitem(I.new_list(getf(o, "#segs")), a[0])

            return Builtin(name, get)
        if name == "__contains__" and isinstance(o, DictV):
            return Builtin(name, lambda a, k: I.dict_find(o, a[0]) is not MISSING)
        if name == "__len__":
            return Builtin(name, lambda a, k: mk(I.segs_len(getf(o, "#segs"))))
        if name == "__iter__":
            plain = I.new_list(getf(o, "#segs"))
            return Builtin(name, lambda a, k: iter_of(plain))
        if name in ("__str__", "__repr__"):
            return Builtin(name, lambda a, k: fmt_term("repr", I.new_list(getf(o, "#segs"))))
        if name == "__eq__":
            return undecided("super().__eq__")
        return None
    return method(o, name)


# --- modules outside the package ---------------------------------------------------------------

_TYPING = {
    "List": list,
    "Dict": dict,
    "Tuple": tuple,
    "Set": set,
    "FrozenSet": frozenset,
    "Deque": collections.deque,
    "DefaultDict": collections.defaultdict,
    "Type": type,
    "Pattern": pyre.Pattern,
    "Match": pyre.Match,
    "Mapping": cabc.Mapping,
    "MutableMapping": cabc.MutableMapping,
    "Sequence": cabc.Sequence,
    "MutableSequence": cabc.MutableSequence,
    "Iterable": cabc.Iterable,
    "Iterator": cabc.Iterator,
    "Hashable": cabc.Hashable,
    "Sized": cabc.Sized,
    "Collection": cabc.Collection,
    "Container": cabc.Container,
    "Callable": cabc.Callable,
    "AsyncIterable": cabc.AsyncIterable,
    "AsyncIterator": cabc.AsyncIterator,
    "Awaitable": cabc.Awaitable,
}


def external(name: str) -> Any:
    """Something imported from outside the package."""
    mod, _, attr = name.rpartition(".")
    if mod == "typing":
        if attr == "TYPE_CHECKING":
            return False
        if attr in _TYPING:
            return pyclass(_TYPING[attr])
        if attr == "NamedTuple":
            return Ext(name)
        return Ext(name)
    if mod == "collections.abc":
        return pyclass(getattr(cabc, attr))
    if name in EXTERNAL:
        return EXTERNAL[name]
    if name in ("sys.stdin", "sys.stdout", "sys.stderr", "sys.argv") and "sys" in WORLD:
        return I.call(WORLD["sys"], [name[4:]])
    if name == "enum.auto":
        return Ext(name)
    if name == "abc.ABC":
        return I.OBJECT
    if mod in ("io", "decimal", "enum", "re", "json", "collections", "numbers", "json.decoder", "codecs", "binascii"):
        import importlib

        v = getattr(importlib.import_module(mod), attr, None)
        if isinstance(v, type):
            return pyclass(v)
    return Ext(name)


def ext_attr(o: Ext, name: str) -> Any:
    full = f"{o.name}.{name}"
    if o.name in ("re", "json", "math", "decimal", "io", "enum", "sys", "collections", "argparse", "codecs", "binascii", "os", "string", "copy"):
        v = EXTERNAL.get(full)
        if v is not None:
            return v
        if o.name == "sys" and name in ("stdin", "stdout", "stderr", "argv") and "sys" in WORLD:
            return I.call(WORLD["sys"], [name])
        import importlib

        try:
            pv = getattr(importlib.import_module(o.name), name)
        except (ImportError, AttributeError):
            return throw(AttributeError, name)
        if isinstance(pv, type):
            return pyclass(pv)
        if isinstance(pv, (int, str, float)) and o.name not in ("sys", "os"):
            return int(pv) if isinstance(pv, int) and not isinstance(pv, bool) else pv
        return Ext(full)
    if o.name == "collections" and name == "abc":
        return Ext("collections.abc")
    return external(full)


def ext_subscript(o: Ext) -> Any:
    return o


EXTERNAL: Dict[str, Any] = {}


def ex(*names: str) -> Any:
    def deco(fn: Any) -> Any:
        for n in names:
            EXTERNAL[n] = Builtin(n, fn)
        return fn

    return deco


def call_ext(f: Ext, args: List[Any], kwargs: Dict[str, Any]) -> Any:
    b = EXTERNAL.get(f.name)
    if isinstance(b, Builtin):
        return b.fn(args, kwargs)
    if f.name.startswith("typing."):
        if f.name == "typing.cast":
            return args[1]
        if f.name == "typing.NewType":
            return Builtin("newtype", lambda a, k: a[0])
        return Ext(f.name)
    if f.name == "enum.auto":
        return Ext("auto")
    if f.name == "dataclasses.dataclass":
        from . import synth

        if args:
            return synth.dataclass(args[0], {})
        return Builtin("dataclass", lambda a, k: synth.dataclass(a[0], kwargs))
    if f.name == "dataclasses.field":
        from . import synth

        return synth.Field(kwargs)
    if f.name.startswith("warnings.") or f.name.startswith("logging."):
        return None
    return undecided(f"call of {f.name}")


EXTERNAL["collections.namedtuple"] = Builtin("namedtuple", namedtuple_)


@ex("functools.wraps")
def _wraps(a: List[Any], k: Any) -> Any:
    return Builtin("wraps", lambda b, kk: b[0])


@ex("sys.intern")
def _intern(a: List[Any], k: Any) -> Any:
    return a[0]


@ex("abc.abstractmethod", "typing.overload", "typing.final", "functools.lru_cache", "functools.cache", "typing.runtime_checkable", "typing.no_type_check")
def _identity(a: List[Any], k: Any) -> Any:
    if a and isinstance(a[0], (FuncV, Builtin, Wrap, ClassV)):
        return a[0]
    if not a or isinstance(a[0], int) or a[0] is None:
        return Builtin("decorator", lambda b, kk: b[0])
    return undecided("a caching decorator")


@ex("functools.partial")
def _partial(a: List[Any], k: Dict[str, Any]) -> Any:
    f, pre = a[0], list(a[1:])
    return Builtin("partial", lambda b, kk: I.call(f, pre + list(b), {**k, **kk}))


@ex("functools.reduce")
def _reduce(a: List[Any], k: Any) -> Any:
    items = known_items(a[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x])
    return acc


@ex("operator.getitem")
def _opgetitem(a: List[Any], k: Any) -> Any:
    return getitem(a[0], a[1])


for _nm, _cmp in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("gt", ast.Gt), ("le", ast.LtE), ("ge", ast.GtE)):
    EXTERNAL[f"operator.{_nm}"] = Builtin(
        _nm, lambda a, k, c=_cmp: I.compare(c(), a[0], a[1])
    )


@ex("operator.attrgetter")
def _attrgetter(a: List[Any], k: Any) -> Any:
    def one(o: Any, path: str) -> Any:
        for n in path.split("."):
            o = I.getattr_(o, n)
        return o

    def get(b: List[Any], kk: Any) -> Any:
        if len(a) > 1:
            return tuple(one(b[0], x) for x in a)
        return one(b[0], a[0])

    return Builtin("attrgetter", get)


@ex("operator.itemgetter")
def _itemgetter(a: List[Any], k: Any) -> Any:
    if len(a) > 1:
        return Builtin("itemgetter", lambda b, kk: tuple(getitem(b[0], x) for x in a))
    return Builtin("itemgetter", lambda b, kk: getitem(b[0], a[0]))


@ex("contextlib.suppress")
def _suppress(a: List[Any], k: Any) -> Any:
    return I.Suppress(a)


@ex("copy.copy")
def _copy(a: List[Any], k: Any) -> Any:
    v = a[0]
    if isinstance(v, CONST) or isinstance(v, (tuple, TupV)):
        return v
    if isinstance(v, Sym):
        return Sym(("fn", "copy", S.kinds(v.term), v.term))
    if isinstance(v, Inst):
        m = I.find_attr(v.cls, "__copy__")
        if m is not MISSING:
            return I.call(I.bind(m, v), [])
        o = ListV(v.cls) if isinstance(v, ListV) else DictV(v.cls) if isinstance(v, DictV) else Inst(v.cls)
        for kk in list(v.f):
            o.f[kk] = getf(v, kk)
        return o
    return undecided("copy.copy")


@ex("copy.deepcopy")
def _deepcopy(a: List[Any], k: Any) -> Any:
    return deepcopy(a[0], {})


def deepcopy(v: Any, memo: Dict[int, Any]) -> Any:
    if isinstance(v, CONST):
        return v
    if isinstance(v, Sym):
        if S.kinds(v.term) <= frozenset([NULL, BOOL, INT, FLOAT, STR]):
            return v
        if S.effects:
            from . import mutate

            mutate.check_deep(v.term)
        if S.is_kind(v.term, frozenset([NULL, BOOL, INT, FLOAT, STR])):
            return v
        n = S.copies.count(v.term)
        S.copies.append(v.term)
        return Sym(("fn", "deepcopy", S.kinds(v.term), v.term, n))
    if isinstance(v, tuple):
        return tuple(deepcopy(x, memo) for x in v)
    if isinstance(v, Inst):
        if id(v) in memo:
            return memo[id(v)]
        o = ListV(v.cls) if isinstance(v, ListV) else DictV(v.cls) if isinstance(v, DictV) else Inst(v.cls)
        memo[id(v)] = o
        for kk in list(v.f):
            x = getf(v, kk)
            if kk == "#segs":
                if any(not isinstance(s, Item) for s in x):
                    return undecided("deepcopy of an unknown collection")
                o.f[kk] = tuple(Item(deepcopy(s.v, memo)) for s in x)
            else:
                o.f[kk] = deepcopy(x, memo)
        return o
    if isinstance(v, (ClassV, FuncV, RegexV)):
        return v
    return undecided("copy.deepcopy")


@ex("json.dumps")
def _dumps(a: List[Any], k: Dict[str, Any]) -> Any:
    v = a[0]
    if isinstance(v, CONST) and all(I.is_const(x) for x in k.values()):
        return I.pycall(pyjson.dumps, v, **k)
    if isinstance(v, Sym) and S.kinds(v.term) == KSTR:
        r = strings.json_text(v.term, k.get("ensure_ascii", True) is not False)
        if r is not None and not (set(k) - {"ensure_ascii", "indent", "separators", "sort_keys"}):
            return mk(r)
    kw = tuple(sorted((x, freeze(y)) for x, y in k.items() if not (x == "indent" and y is None)))
    t = ("fn", "json.dumps", KSTR, freeze(v), kw)
    DUMPED[t] = v
    return Sym(t)


# What the texts made by json.dumps() represent.
DUMPED: Dict[Any, Any] = {}


@ex("json.dump")
def _dump(a: List[Any], k: Dict[str, Any]) -> Any:
    fp = opt(a, k, 1, "fp")
    k = {x: y for x, y in k.items() if x != "fp"}
    text = _dumps(a[:1], k)
    I.call(I.getattr_(fp, "write"), [text])


JSON_KINDS = JSON


@ex("json.loads")
def _loads(a: List[Any], k: Dict[str, Any]) -> Any:
    v = a[0]
    if isinstance(v, str) and not k:
        try:
            return from_py(pyjson.loads(v))
        except ValueError as err:
            throw(pyjson.JSONDecodeError, str(err))
    if k:
        return undecided("json.loads with options")
    if isinstance(v, Inst) and v.cls.name == "Bytes" and I.find_attr(v.cls, "as_json_text") is not MISSING:
        return _loads([I.call(I.getattr_(v, "as_json_text"), [])], k)
    if not isinstance(v, Sym):
        throw(TypeError, "the JSON object must be str")
    if v.term in DUMPED:
        return DUMPED[v.term]
    if S.kinds(v.term) <= set(I._KIND_PY) and not I.isinst(v, I.STRC):
        throw(TypeError, "the JSON object must be str")
    t = v.term
    r = strings.json_decode(t)
    if r is not None:
        return mk(r)
    ks = loads_kinds(t)
    if not S.decide(("validjson", t)):
        throw(pyjson.JSONDecodeError, fmt_term("jsonerror", v))
    return Sym(("fn", "json.loads", ks, t))


def loads_kinds(t: Any) -> Any:
    if t[0] == "cat" and isinstance(t[1], str) and t[1].startswith('"'):
        return KSTR
    return JSON


@ex("json.load")
def _load(a: List[Any], k: Dict[str, Any]) -> Any:
    return _loads([I.call(I.getattr_(a[0], "read"), [])], k)


def from_py(v: Any) -> Any:
    if isinstance(v, list):
        return I.new_list([Item(from_py(x)) for x in v])
    if isinstance(v, dict):
        return DictV(I.DICTC, tuple(Item((k, from_py(x))) for k, x in v.items()))
    return v


@ex("re.compile")
def _recompile(a: List[Any], k: Dict[str, Any]) -> Any:
    return re_compile(a, k)


@ex("re.escape")
def _reescape(a: List[Any], k: Any) -> Any:
    if isinstance(a[0], str):
        return pyre.escape(a[0])
    return Sym(("fn", "re.escape", KSTR, I._term(a[0])))


def _refn(kind: str) -> Any:
    def fn(a: List[Any], k: Dict[str, Any]) -> Any:
        r = re_compile([a[0]], {"flags": opt(a, k, 2, "flags", 0)})
        return re_match(r, kind, a[1])

    return fn


for _k in ("fullmatch", "match", "search"):
    EXTERNAL[f"re.{_k}"] = Builtin(_k, _refn(_k))


@ex("re.sub")
def _resub(a: List[Any], k: Dict[str, Any]) -> Any:
    if all(I.is_const(x) for x in a):
        return I.pycall(pyre.sub, *a, **k)
    return undecided("re.sub")


@ex("math.isinf", "math.isnan", "math.isfinite")
def _isinf(a: List[Any], k: Any) -> Any:
    return undecided("math")


def _mathfn(name: str) -> Any:
    import math

    def fn(a: List[Any], k: Any) -> Any:
        if isinstance(a[0], CONST):
            return I.pycall(getattr(math, name), *a)
        return S.decide((name, I._term(a[0])))

    return fn


for _k in ("isinf", "isnan", "isfinite"):
    EXTERNAL[f"math.{_k}"] = Builtin(_k, _mathfn(_k))


@ex("itertools.chain")
def _chain(a: List[Any], k: Any) -> Any:
    def thunk() -> Tuple:
        out: List[Any] = []
        for x in a:
            for s in I.iter_segs(x):
                out.append(s)
                if isinstance(s, RaiseSeg):
                    return tuple(out)
        return tuple(out)

    return lazy(thunk, "chain")


@ex("itertools.chain.from_iterable")
def _chain_from(a: List[Any], k: Any) -> Any:
    from . import loops

    def thunk() -> Tuple:
        out = ListV(I.LISTC)

        def body(v: Any) -> Any:
            appendf(out, "#segs", strip_raise(I.iter_segs(v)))
            return I.NORMAL

        try:
            loops.run(I.iter_segs(a[0]), body, None)
        except Raised as e:
            appendf(out, "#segs", [RaiseSeg(e.exc)])
        return getf(out, "#segs")

    return lazy(thunk, "chain")


def _chain_attr() -> None:
    EXTERNAL["itertools.chain"] = ChainExt()


@ex("itertools.islice")
def _islice(a: List[Any], k: Any) -> Any:
    it = iter_of(a[0])
    if len(a) == 2:
        start: Any = 0
        stop = a[1]
        step: Any = None
    else:
        start, stop, step = (*a[1:], None)[:3]
        if start is None:
            start = 0
    for x in (start, stop):
        if x is None or isinstance(x, bool):
            continue
        if isinstance(x, int):
            if x < 0:
                throw(ValueError, "indices for islice() must be None or non-negative")
        elif isinstance(x, Sym):
            if not I.isinst(x, (pyclass(int), pyclass(type(None)))):
                throw(ValueError, "indices for islice() must be None or an integer")
            if S.kinds(x.term) == KINT and S.le0(ladd(x.term, 1)):
                throw(ValueError, "indices for islice() must be None or non-negative")
        else:
            throw(ValueError, "indices for islice() must be None or an integer")
    if step not in (None, 1):
        return undecided("islice with a step")

    def thunk() -> Tuple:
        take_n(it, I._term(start))
        if stop is None:
            rem = started(it)
            setf(it, "#rem", ())
            return rem
        n = ladd(I._term(stop), I._term(start), -1)
        if S.le0(n):
            return ()
        return take_n(it, n)

    return lazy(thunk, "islice")


def take_n(it: IterV, n: Any) -> Tuple:
    """Consume the next n elements."""
    if n == 0:
        return ()
    out: List[Any] = []
    rem = list(started(it))
    while rem:
        if isinstance(n, int) and n <= 0 or not isinstance(n, int) and S.le0(n):
            break
        s = rem[0]
        if isinstance(s, RaiseSeg):
            setf(it, "#rem", ())
            out.append(s)
            return tuple(out)
        if isinstance(s, Item):
            out.append(s)
            rem.pop(0)
            n = ladd(n, -1)
            continue
        if not plain_each(s) or s.dom[0] != "range" or s.dom[3] != 1:
            if all(not c[1] for c in s.cases):
                rem.pop(0)
                continue
            return undecided("a prefix of a filtered sequence")
        lo, hi = s.dom[1], s.dom[2]
        if S.le0(ladd(hi, lo, -1)):
            rem.pop(0)
            continue
        mid = ladd(lo, n)
        if S.le0(ladd(hi, mid, -1)):  # hi <= lo + n
            out.append(s)
            n = ladd(n, ladd(hi, lo, -1), -1)
            rem.pop(0)
        else:
            out.append(Each(("range", lo, mid, 1), s.var, s.cases))
            rem[0] = Each(("range", mid, hi, 1), s.var, s.cases)
            n = 0
    setf(it, "#rem", tuple(rem))
    return tuple(out)


@ex("itertools.tee")
def _tee(a: List[Any], k: Any) -> Any:
    n = opt(a, k, 1, "n", 2)
    if isinstance(n, int) and n < 0:
        throw(ValueError, "n must be >= 0")
    if not isinstance(n, int):
        if isinstance(n, Sym) and S.le0(ladd(n.term, 1)):
            throw(ValueError, "n must be >= 0")
        return TeeV(iter_of(a[0]), n)
    it = iter_of(a[0])
    cell = ListV(I.LISTC)

    def shared() -> Tuple:
        if "#done" not in cell.f:
            rem = started(it)
            setf(it, "#rem", ())
            setf(cell, "#done", rem)
        return getf(cell, "#done")

    return tuple(lazy(shared, "tee") for _ in range(n))


class TeeV:
    def __init__(self, it: IterV, n: Any):
        self.it = it
        self.n = n


@ex("itertools.count", "itertools.cycle", "itertools.batched", "itertools.permutations", "itertools.combinations")
def _itother(a: List[Any], k: Any) -> Any:
    return undecided("itertools")


def std(name: str) -> Any:
    """A function or class of spec/std.py."""
    return Builtin(name, lambda a, k: I.call(I.load("spec.std").f[name], a, k))


for _k in ("takewhile", "dropwhile", "filterfalse", "starmap", "compress", "accumulate", "repeat", "pairwise", "product", "groupby", "zip_longest"):
    EXTERNAL[f"itertools.{_k}"] = std(_k)
for _k in ("add", "sub", "mul", "mod", "floordiv", "truediv", "and_", "or_", "xor", "neg", "not_", "truth", "is_", "is_not", "contains", "setitem", "delitem", "index"):
    EXTERNAL[f"operator.{_k}"] = std("op_" + _k)
EXTERNAL["operator.concat"] = std("op_add")
EXTERNAL["operator.methodcaller"] = std("methodcaller")
EXTERNAL["functools.cmp_to_key"] = std("cmp_to_key")
EXTERNAL["functools.singledispatch"] = std("singledispatch")
BUILTINS["divmod"] = std("divmod")


@ex("functools.cached_property")
def _cachedprop(a: List[Any], k: Any) -> Any:
    f = a[0]

    def get(b: List[Any], kk: Any) -> Any:
        o = b[0]
        v = getf(o, "#cached " + f.name)
        if v is MISSING:
            v = I.call(I.bind(f, o), [])
            setf(o, "#cached " + f.name, v)
        return v

    return Wrap("property", Builtin(f.name, get))


@ex("contextlib.contextmanager")
def _contextmanager(a: List[Any], k: Any) -> Any:
    f = a[0]
    if not isinstance(f, FuncV):
        return undecided("contextmanager")
    return Builtin(f.name, lambda b, kk: I.GenManager(f, list(b), kk))


@ex("contextlib.nullcontext")
def _nullcontext(a: List[Any], k: Any) -> Any:
    return I.Suppress([], a[0] if a else None)


@ex("codecs.decode")
def _codecs_decode(a: List[Any], k: Dict[str, Any]) -> Any:
    if all(I.is_const(x) for x in (*a, *k.values())):
        import codecs
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return I.pycall(codecs.decode, *a, **k)
    t = I._term(a[0])
    enc = opt(a, k, 1, "encoding", "utf-8")
    if S.decide(("undecodable", t, enc)):
        throw(UnicodeDecodeError, "undecodable")
    return Sym(("fn", "decode", KSTR, t, enc))


@ex("urllib.parse.unquote")
def _unquote(a: List[Any], k: Dict[str, Any]) -> Any:
    if isinstance(a[0], str) and len(a) == 1 and not k:
        from urllib.parse import unquote

        return unquote(a[0])
    return Sym(("fn", "unquote", KSTR, I._term(a[0]), *[freeze(x) for x in a[1:]]))


_PARAM_KINDS = {"POSITIONAL_ONLY": 0, "POSITIONAL_OR_KEYWORD": 1, "VAR_POSITIONAL": 2, "KEYWORD_ONLY": 3, "VAR_KEYWORD": 4}
for _n, _v in _PARAM_KINDS.items():
    EXTERNAL[f"inspect.Parameter.{_n}"] = _v
    EXTERNAL[f"inspect._ParameterKind.{_n}"] = _v


@ex("inspect.signature")
def _signature(a: List[Any], k: Any) -> Any:
    """The parameters of a function written in Python."""
    f, skip = a[0], 0
    if isinstance(f, Inst) and not isinstance(f, (ListV, DictV)):
        m = I.find_attr(f.cls, "__call__")
        if m is MISSING:
            throw(TypeError, "not a callable object")
        f, skip = m, 1
    if isinstance(f, BoundV):
        f, skip = f.func, skip + 1
    if not isinstance(f, FuncV):
        return undecided("inspect.signature")
    ar = f.node.args
    ps = [(x.arg, 0) for x in ar.posonlyargs] + [(x.arg, 1) for x in ar.args]
    ps = ps[skip:]
    if ar.vararg is not None:
        ps.append((ar.vararg.arg, 2))
    ps += [(x.arg, 3) for x in ar.kwonlyargs]
    if ar.kwarg is not None:
        ps.append((ar.kwarg.arg, 4))
    with_default = {x.arg for x in (ar.posonlyargs + ar.args)[len(ar.posonlyargs) + len(ar.args) - len(ar.defaults) :]} if ar.defaults else set()
    with_default |= {x.arg for x, d in zip(ar.kwonlyargs, ar.kw_defaults) if d is not None}
    empty = Ext("inspect.Parameter.empty")

    def param(n: str, kind: int) -> Any:
        d = empty if n not in with_default else Ext(f"default of {n}")
        return Opaque(f"parameter {n}", {"name": n, "kind": kind, "default": d, "empty": empty, **_PARAM_KINDS})

    pairs = tuple(Item((n, param(n, kind))) for n, kind in ps)
    return Opaque("signature", {"parameters": DictV(I.DICTC, pairs)})


@ex("sys.exit")
def _exit(a: List[Any], k: Any) -> Any:
    return throw(SystemExit, *a)


class ChainExt(Ext):
    pass


_ = (pysys, pycopy, decimal, level, sym, delf, CoroV, ModuleV, DIT)
