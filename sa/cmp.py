"""Comparison of abstract values under the current facts."""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

from . import dfa
from . import interp as I
from . import loops
from . import strings
from .freeze import freeze
from .state import BOOL
from .state import DICT
from .state import FLOAT
from .state import INT
from .state import JSON
from .state import KINT
from .state import KSTR
from .state import LIST
from .state import MISSING
from .state import NULL
from .state import STR
from .state import Undecided
from .state import ladd
from .state import lmul
from .values import S
from .values import ClassV
from .values import DictV
from .values import Each
from .values import FuncV
from .values import Inst
from .values import Item
from .values import IterV
from .values import ListV
from .values import Opaque
from .values import Poison
from .values import Raised
from .values import RaiseSeg
from .values import RangeV
from .values import RegexV
from .values import SliceV
from .values import Sym
from .values import TupV
from .values import getf
from .values import mk
from .values import show

CONST = I.CONST


class Differ(Exception):
    """The analysed value isn't the specified one in a feasible state."""

    def __init__(self, msg: str):
        super().__init__(msg)
        self.traces = [list(x.trace) for x in S.layers]


_FREE = {"sym", "child", "key", "len", "var", "lin", "strof", "cat", "hom", "first", "elem", "stream", "int"}


def free(t: Any) -> bool:
    """Is _t_ built from inputs by injective operations only?"""
    if not isinstance(t, tuple) or not t:
        return True
    op = t[0]
    if op == "sym":
        return True
    if op == "lin":
        return all(free(x) for x, _ in t[2])
    if op == "fn":
        return t[1] in ("deepcopy",) and all(free(x) for x in t[3:])
    if op not in _FREE:
        return False
    return all(free(x) for x in t[1:])


def alias(x: Any, y: Any) -> bool:
    """Do the facts make two paths into a document the same?"""
    if x == y:
        return True
    if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "child"):
        return False
    if not alias(x[1], y[1]):
        return False
    i, j = x[2], y[2]
    if i == j and type(i) is type(j):
        return True

    if is_text(i) and is_text(j):
        return const(i) == const(j) or (isinstance(i, tuple) and j in S.twins(i))

    def is_int(k: Any) -> bool:
        if isinstance(k, int):
            return True
        return isinstance(k, tuple) and (k[0] in ("lin", "len", "var") or S.kinds(k) == KINT)

    return is_int(i) and is_int(j) and S.eq0_implied(ladd(i, j, -1))


def is_text(k: Any) -> bool:
    return isinstance(k, str) or (isinstance(k, tuple) and k[0] != "lin" and S.kinds(k) == frozenset([STR]))


def signed(parts: List[Any]) -> List[Any]:
    """The texts of negative integers as signs and digits."""
    from .state import lmul

    out: List[Any] = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == "strof" and S.lin_implied(ladd(1, p[1])):
            out += ["-", ("strof", lmul(p[1], -1))]
        else:
            out.append(p)
    return out


class Cmp:
    """Compares an actual value with an expected one.

    identity: do different objects with equal contents differ?
    unordered: is the order of dictionary items irrelevant?
    observers: how to look at instances of classes, as (class, function) pairs
    """

    def __init__(
        self,
        observers: Tuple[Tuple[ClassV, Callable[[Any], Any]], ...] = (),
        identity: bool = True,
        message: bool = False,
        unordered: bool = False,
    ):
        self.observers = observers
        self.identity = identity
        self.unordered = unordered
        self.pairs: set = set()
        self.objects: Dict[Any, Any] = {}
        self.depth = 0

    def differ(self, what: str, a: Any, b: Any) -> None:
        raise Differ(f"{what}: got {brief(a)}, expected {brief(b)}")

    # -- values

    def same(self, a: Any, b: Any, what: str = "value") -> None:
        if a is b:
            return
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Undecided("a value of the last iteration")
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        ca, cb = isinstance(a, CONST), isinstance(b, CONST)
        if ca and cb:
            if type(a) is not type(b) or a != b:
                self.differ(what, a, b)
            return
        if (sa or ca) and (sb or cb):
            self.terms(I._term(a) if sa else a, I._term(b) if sb else b, what)
            return
        for o, p, flip in ((a, b, False), (b, a, True)):
            if isinstance(o, Opaque):
                if isinstance(p, Opaque) and p.term == o.term:
                    return
                if isinstance(p, Sym) and p.term == o.term:
                    return
        fa, fb = self.observe(a), self.observe(b)
        if fa is not None or fb is not None:
            if (id(a), id(b)) in self.pairs:
                return
            self.pairs.add((id(a), id(b)))
            self.keep = getattr(self, "keep", [])
            self.keep.append((a, b))
            self.same(fa if fa is not None else a, fb if fb is not None else b, what)
            return
        if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    self.differ(what + " (length)", a, b)
                for i, (x, y) in enumerate(zip(a, b)):
                    self.same(x, y, f"{what}[{i}]")
                return
            self.segs(I.tup_segs(a), I.tup_segs(b), what)
            return
        if isinstance(a, IterV) or isinstance(b, IterV):
            xa = I.iter_segs(a, a.is_async) if isinstance(a, IterV) else I.iter_segs(a)
            xb = I.iter_segs(b, b.is_async) if isinstance(b, IterV) else I.iter_segs(b)
            self.segs(xa, xb, what)
            return
        if isinstance(a, ListV) and isinstance(b, ListV):
            if I._setlike(a) or I._setlike(b):
                self.sets(a, b, what)
                return
            self.segs(getf(a, "#segs"), getf(b, "#segs"), what)
            return
        if isinstance(a, DictV) and isinstance(b, DictV):
            self.dicts(a, b, what)
            return
        if (sa and isinstance(b, (ListV, DictV))) or (sb and isinstance(a, (ListV, DictV))):
            self.sym_coll(a, b, what)
            return
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            self.same(a.start, b.start, what + ".start")
            self.same(a.stop, b.stop, what + ".stop")
            self.same(a.step, b.step, what + ".step")
            return
        if isinstance(a, RegexV) and isinstance(b, RegexV):
            self.same(a.pattern, b.pattern, what + ".pattern")
            self.same(a.flags, b.flags, what + ".flags")
            return
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            if a is not b:
                self.differ(what, a, b)
            return
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            k = (id(a), id(b))
            if k in self.pairs:
                return
            self.pairs.add(k)
            self.keep = getattr(self, "keep", [])
            self.keep.append((a, b))
            if self.depth > 30:
                raise Undecided("deep values")
            self.depth += 1
            try:
                for f in sorted(set(a.f) | set(b.f), key=str):
                    if str(f).startswith("#"):
                        continue
                    x, y = a.f.get(f, MISSING), b.f.get(f, MISSING)
                    if x is MISSING or y is MISSING:
                        self.differ(f"{what}.{f}", x, y)
                    self.same(x, y, f"{what}.{f}")
            finally:
                self.depth -= 1
            return
        if type(a) is not type(b) or isinstance(a, Inst):
            if isinstance(a, (FuncV,)) or isinstance(b, FuncV):
                raise Undecided("functions")
            ka, kb = kindset(a), kindset(b)
            if ka is not None and kb is not None and not (ka & kb):
                self.differ(what, a, b)
        raise Undecided(f"can't compare {brief(a)} and {brief(b)}")

    def observe(self, v: Any) -> Any:
        if isinstance(v, Inst):
            for cls, f in self.observers:
                if cls in v.cls.mro:
                    return f(v)
        return None

    # -- objects

    def paired(self, x: Any, y: Any) -> bool:
        """May the containers _x_ and _y_ be each other's counterparts?

        With identity, an object of the input is only itself, and what was made here
        is one new object for one new object.
        """
        x, y = object_of(x), object_of(y)
        if not self.identity:
            return True
        if x[0] != "fn" and y[0] != "fn":
            return True
        if x[0] != y[0]:
            return False
        return self.objects.setdefault(x, y) == y and self.objects.setdefault((y,), x) == x

    # -- terms

    def terms(self, x: Any, y: Any, what: str) -> None:
        x, y = strings.settle(x), strings.settle(y)
        if x == y and type(x) is type(y):
            return
        if isinstance(x, tuple) and isinstance(y, tuple):
            p, q = uncopy(x), uncopy(y)
            if p == q and (p != x or q != y):
                if not (S.kinds(x) & frozenset([LIST, DICT])) or self.paired(x, y):
                    return
            elif not self.identity:
                x, y = p, q
        if alias(x, y):
            return
        kx, ky = self.kinds(x), self.kinds(y)
        if not (kx & ky):
            self.differ(what, mk(x), mk(y))
        if len(kx | ky) > 1 and (kx | ky) <= set(I._KIND_PY):
            for k in sorted(kx | ky):
                xs = isinstance(x, tuple)
                ys = isinstance(y, tuple)
                inx = S.is_kind(x, frozenset([k])) if xs else kx == {k}
                iny = S.is_kind(y, frozenset([k])) if ys else ky == {k}
                if inx != iny:
                    self.maybe(what, x, y)
                if inx:
                    break
            kx, ky = self.kinds(x), self.kinds(y)
        if kx == ky == KINT:
            e = ladd(x, y, -1)
            if S.eq0_implied(e):
                return
            self.maybe(what, x, y)
        if kx == ky == KSTR:
            self.strings(x, y, what)
            return
        if kx == ky == frozenset([NULL]):
            return
        if kx == ky == frozenset([BOOL]):
            bx = S.decide(("istrue", x)) if isinstance(x, tuple) else x
            by = S.decide(("istrue", y)) if isinstance(y, tuple) else y
            if bx != by:
                self.maybe(what, x, y)
            return
        if isinstance(x, tuple) and isinstance(y, tuple):
            a, b = sorted((x, y), key=repr)
            if not self.identity and S.truth(("eq", a, b)) is True:
                return
        self.maybe(what, x, y)

    def kinds(self, x: Any) -> Any:
        if isinstance(x, tuple):
            return S.kinds(x)
        return kindset(x)

    def maybe(self, what: str, x: Any, y: Any) -> None:
        """Different terms: different values if they are unrelated inputs."""
        if isinstance(x, tuple) and x[0] == "fn" and isinstance(y, tuple) and y[0] == "fn":
            if x[1] == y[1] and x[1] in _INJECTIVE and len(x) == len(y):
                for p, q in zip(x[3:], y[3:]):
                    if p != q:
                        self.terms_frozen(p, q, what)
                return
        if free(x) and free(y):
            self.differ(what, mk(x), mk(y))
        raise Undecided(f"{what}: {show(x)} vs {show(y)}")

    def terms_frozen(self, p: Any, q: Any, what: str) -> None:
        if isinstance(p, tuple) and isinstance(q, tuple):
            self.terms(p, q, what)
        elif type(p) is type(q):
            self.differ(what, p, q)
        else:
            raise Undecided(what)

    # -- strings

    def strings(self, x: Any, y: Any, what: str) -> None:
        px, py = strings.parts_of(x), strings.parts_of(y)
        px, py = signed(px), signed(py)
        px, py = [const(strings.plain(p)) for p in px], [const(strings.plain(p)) for p in py]
        from .pylib import cat_term

        px, py = strings.parts_of(cat_term(px)), strings.parts_of(cat_term(py))
        for rev in (False, True):
            if rev:
                px.reverse()
                py.reverse()
            while px and py:
                a, b = px[0], py[0]
                if a == b:
                    px.pop(0)
                    py.pop(0)
                    continue
                if isinstance(a, str) and isinstance(b, str):
                    n = 0
                    while n < min(len(a), len(b)) and a[n if not rev else -1 - n] == b[n if not rev else -1 - n]:
                        n += 1
                    if n == 0:
                        self.differ(what, mk(x), mk(y))
                    px[0] = a[n:] if not rev else a[: len(a) - n]
                    py[0] = b[n:] if not rev else b[: len(b) - n]
                    if px[0] == "":
                        px.pop(0)
                    if py and py[0] == "":
                        py.pop(0)
                    continue
                if (
                    isinstance(a, tuple)
                    and isinstance(b, tuple)
                    and a[0] == b[0] == "strof"
                    and S.eq0_implied(ladd(a[1], b[1], -1))
                ):
                    px.pop(0)
                    py.pop(0)
                    continue
                break
            if rev:
                px.reverse()
                py.reverse()
        if not px and not py:
            return
        if not px or not py:
            rest = px or py
            for p in rest:
                if isinstance(p, str):
                    self.differ(what, mk(x), mk(y))
            for p in rest:
                if not S.in_lang(p, dfa.EPS):
                    self.maybe_str(what, x, y, [p])
                    return
            return
        if len(px) == len(py) == 1 and not isinstance(px[0], str) and not isinstance(py[0], str):
            a, b = px[0], py[0]
            (ta, fa), (tb, fb) = strings.as_hom(a), strings.as_hom(b)
            if ta == tb:
                if any(fa.get(c, c) != fb.get(c, c) for c in {*fa, *fb} if strings.may_contain(ta, c)):
                    self.maybe_str(what, x, y, [ta])
                return
            if a[0] == b[0] == "fn":
                self.maybe(what, a, b)
                return
        if not isinstance(x, str) and not isinstance(y, str):
            if dfa.is_empty(dfa.conj(S.lang(x), S.lang(y))):
                self.differ(what, mk(x), mk(y))
        for p in px + py:
            if not isinstance(p, str) and not free(p):
                raise Undecided(f"{what}: {show(x)} vs {show(y)}")
        if len(px) == len(py) == 1:
            a, b = px[0], py[0]
            if isinstance(a, str) or isinstance(b, str):
                t, w = (b, a) if isinstance(a, str) else (a, b)
                if S.in_lang(t, dfa.lit(w)):
                    return
        self.maybe_str(what, x, y, [p for p in px + py if not isinstance(p, str)])

    def maybe_str(self, what: str, x: Any, y: Any, ts: List[Any]) -> None:
        if all(free(t) for t in ts):
            self.differ(what, mk(x), mk(y))
        raise Undecided(f"{what}: {show(x)} vs {show(y)}")

    # -- collections

    def sets(self, a: Any, b: Any, what: str) -> None:
        ia, ib = I.items_of(a, "#segs"), I.items_of(b, "#segs")
        for x in ia:
            if not any(I.eq(x, y) for y in ib):
                self.differ(what, a, b)
        for y in ib:
            if not any(I.eq(x, y) for x in ia):
                self.differ(what, a, b)

    def dicts(self, a: DictV, b: DictV, what: str) -> None:
        sa, sb = getf(a, "#segs"), getf(b, "#segs")
        if self.unordered and all(isinstance(s, Item) and isinstance(s.v[0], str) for s in (*sa, *sb)):
            sa = sorted(sa, key=lambda s: s.v[0])
            sb = sorted(sb, key=lambda s: s.v[0])
        self.segs(sa, sb, what)

    def sym_coll(self, a: Any, b: Any, what: str) -> None:
        t, coll = (a.term, b) if isinstance(a, Sym) else (b.term, a)
        want = DICT if isinstance(coll, DictV) else LIST
        if not S.is_kind(t, frozenset([want])):
            self.differ(what, a, b)
        segs = I.dict_segs(t, lambda k, c: (k, c)) if want == DICT else I.list_segs(t)
        if isinstance(a, Sym):
            self.segs(segs, getf(b, "#segs"), what)
        else:
            self.segs(getf(a, "#segs"), segs, what)

    # -- segments

    def segs(self, sa: Any, sb: Any, what: str) -> None:
        la, lb = list(tidy(sa)), list(tidy(sb))
        i = 0
        while la or lb:
            if la and lb:
                a, b = la[0], lb[0]
                if isinstance(a, Item) and isinstance(b, Item):
                    self.same(a.v, b.v, f"{what}[{i}]")
                    la.pop(0)
                    lb.pop(0)
                    i += 1
                    continue
                if isinstance(a, RaiseSeg) and isinstance(b, RaiseSeg):
                    self.excs(a.exc, b.exc, what)
                    return
                if isinstance(a, Each) and isinstance(b, Each):
                    if not self.same_dom(a.dom, b.dom):
                        a, b = rebased(a), rebased(b)
                    if self.same_dom(a.dom, b.dom):
                        self.joint(a, b, what)
                        la.pop(0)
                        lb.pop(0)
                        continue
                    if a.dom[0] == b.dom[0] == "range" and one_each(a) and one_each(b):
                        la[0], lb[0] = a, b
                        self.aligned(la, lb, what)
                        continue
            if self.split(la, lb) or self.split(lb, la):
                continue
            done = False
            for side, l, o in (("got", la, lb), ("expected", lb, la)):
                if l and isinstance(l[0], Each):
                    u = unroll(l[0])
                    if u is not None:
                        l[0:1] = u
                        done = True
                        break
            if done:
                continue
            for side, l, o in (("got", la, lb), ("expected", lb, la)):
                if l and isinstance(l[0], Each) and not (o and isinstance(o[0], Each)):
                    if not loops.exists_emission(l[0]):
                        l.pop(0)
                        done = True
                        break
                    if not o:
                        self.seg_differ(what, l[0], side)
            if done:
                continue
            if la and lb and isinstance(la[0], Each) and isinstance(lb[0], Each):
                ea, eb = loops.exists_emission(la[0]), loops.exists_emission(lb[0])
                if not ea:
                    la.pop(0)
                if not eb:
                    lb.pop(0)
                if ea and eb:
                    self.dom_differ(la[0], lb[0], what)
                continue
            if not la or not lb or isinstance(la[0], RaiseSeg) or isinstance(lb[0], RaiseSeg):
                if any(isinstance(s, Each) for s in (la[:1] + lb[:1])):
                    raise Undecided(f"{what}: sequences of different shape")
                raise Differ(
                    f"{what}: got {brief(la[0]) if la else 'the end'}, "
                    f"expected {brief(lb[0]) if lb else 'the end'} at position {i}"
                )
            raise Undecided(f"{what}: sequences of different shape")

    def split(self, la: List[Any], lb: List[Any]) -> bool:
        """Split the first loop of _lb_ where that of _la_ ends, or take its first element."""
        if not lb or not isinstance(lb[0], Each):
            return False
        b = lb[0]
        e = next((s for s in la if isinstance(s, Each)), None)
        if e is None:
            return False
        lo, hi = bounds(b.dom)
        if e.dom[0] == "until" and e is la[0] and self.same_dom(e.dom[1], b.dom):
            t = ("first", e.dom[1], e.dom[2])
            one = chosen(loops.instantiate(loops.shifted(b, S.depth + 1), t))
            lb[0:1] = [Each(e.dom, b.var, b.cases), *one]
            if lo is not None:
                lb.insert(1 + len(one), Each(("range", ladd(t, 1), hi, 1), b.var, b.cases))
            return True
        elo, ehi = bounds(e.dom)
        if lo is None or elo is None or not S.eq0_implied(ladd(hi, ehi, -1)):
            return False
        if not S.eq0_implied(ladd(elo, ladd(lo, 1), -1)) or not loops.nonempty(b.dom):
            return False
        one = chosen(loops.instantiate(loops.shifted(b, S.depth + 1), lo))
        lb[0:1] = [*one, Each(("range", ladd(lo, 1), hi, 1), b.var, b.cases)]
        return True

    def aligned(self, la: List[Any], lb: List[Any], what: str) -> None:
        """Compare the first ranges as far as both go."""
        na, nb = la[0].dom[2], lb[0].dom[2]
        for l, n in ((la, na), (lb, nb)):
            if n == 0 or not isinstance(n, int) and S.le0(n):
                l.pop(0)
                return
        if not S.le0(ladd(na, nb, -1)):
            la, lb, na, nb = lb, la, nb, na
            swapped = True
        else:
            swapped = False
        a, b = la.pop(0), lb.pop(0)
        start = Each(("range", 0, na, 1), b.var, b.cases)
        self.joint(*((start, a) if swapped else (a, start)), what)
        if not S.eq0(ladd(na, nb, -1)):
            lb.insert(0, rebased(Each(("range", na, nb, 1), b.var, b.cases)))

    def seg_differ(self, what: str, e: Each, side: str) -> None:
        if not plain_dom(e.dom):
            raise Undecided(f"{what}: more elements {side}")
        raise Differ(f"{what}: {side} more elements: {brief(e)}")

    def dom_differ(self, a: Each, b: Each, what: str) -> None:
        if plain_dom(a.dom) and plain_dom(b.dom):
            if a.dom[0] == b.dom[0] == "range" and a.dom[3] == b.dom[3]:
                ea = ladd(a.dom[1], b.dom[1], -1)
                eb = ladd(a.dom[2], b.dom[2], -1)
                if S.eq0(ea) and (a.dom[3] in (1, -1)) and S.eq0(eb):
                    self.joint(a, Each(a.dom, b.var, b.cases), what)
                    raise Undecided(f"{what}: ranges")
                if a.dom[3] in (1, -1) and all(
                    len(e.cases) == 1 and len(e.cases[0][1]) == 1 for e in (a, b)
                ):
                    raise Differ(f"{what}: got {brief(a)}, expected {brief(b)}")
            if {a.dom[0], b.dom[0]} == {"range"} and {a.dom[3], b.dom[3]} == {1, -1}:
                n = ladd(a.dom[2], a.dom[1], -1)
                if not S.eq0(ladd(n, -1)) and not S.eq0(ladd(n, 1)):
                    raise Differ(f"{what}: got {brief(a)}, expected {brief(b)}")
        raise Undecided(f"{what}: loops over {show(a.dom)} and {show(b.dom)}")

    def same_dom(self, a: Any, b: Any) -> bool:
        if a == b:
            return True
        if a[0] == b[0] == "range":
            if a[3] != b[3] and not (
                isinstance(a[3], tuple) and S.eq0_implied(ladd(a[3], b[3], -1))
            ):
                return False
            return S.eq0_implied(ladd(a[1], b[1], -1)) and S.eq0_implied(ladd(a[2], b[2], -1))
        return False

    def joint(self, a: Each, b: Each, what: str) -> None:
        d = S.depth + 1
        a, b = loops.shifted(a, d), loops.shifted(b, d)

        def one() -> None:
            loops.assume_dom(a.dom, a.var)
            xa = chosen(a)
            xb = chosen(b)
            if (xa or xb) and loops.ruled_out(a):
                return
            self.segs(xa, xb, f"{what}[{show(a.var)}]")

        S.explore(one)

    def excs(self, a: Any, b: Any, what: str) -> None:
        exc_same(a, b, what)


def exc_same(a: Any, b: Any, what: str) -> None:
    """Is the exception _a_ of the family of the expected one?"""
    if not I.subclass(a.cls, b.cls):
        raise Differ(f"{what}: raises {a.cls.name}, expected {b.cls.name}")


def chosen(e: Each) -> Tuple:
    for guards, segs in e.cases:
        if all(S.holds_guard(g) for g in guards):
            return segs
    return ()


def tidy(segs: Any) -> Any:
    for s in segs:
        if isinstance(s, Each) and not any(c[1] for c in s.cases):
            continue
        yield s
        if isinstance(s, RaiseSeg):
            return


def rebased(e: Each) -> Each:
    """A loop over a range, counting from zero."""
    d = e.dom
    if d[0] != "range" or d[3] not in (1, -1) or (d[1] == 0 and d[3] == 1):
        return e
    lo = e.var[1]

    def f(v: Any) -> Any:
        return ladd(d[1], v, d[3]) if v[1] == lo else v

    return Each(
        ("range", 0, lmul(ladd(d[2], d[1], -1), d[3]), 1),
        e.var,
        tuple((loops.subst_guards(g, f), loops.subst_segs(x, f, {})) for g, x in e.cases),
    )


def bounds(dom: Any) -> Any:
    if dom[0] == "members":
        return 0, ("len", dom[1])
    if dom[0] == "range" and dom[3] == 1:
        return dom[1], dom[2]
    return None, None


def one_each(e: Each) -> bool:
    return len(e.cases) == 1 and not e.cases[0][0] and len(e.cases[0][1]) == 1 and isinstance(e.cases[0][1][0], Item)


def plain_dom(d: Any) -> bool:
    if d[0] == "range":
        return True
    if d[0] == "members":
        return free(d[1])
    if d[0] == "stream":
        return isinstance(d[1], tuple) and d[1][0] == "sym"
    return False


def unroll(e: Each) -> Optional[List[Any]]:
    """The items of a loop whose number of iterations is known."""
    d = e.dom
    if d[0] != "range" or d[3] not in (1, -1):
        return None
    n = lmul(ladd(d[2], d[1], -1), d[3])
    for k in range(4):
        if S.eq0_implied(ladd(n, -k)) or (k == 0 and S.lin_implied(n)):
            out: List[Any] = []
            for i in range(k):
                inst = loops.instantiate(e, ladd(d[1], i * d[3]))
                out.extend(chosen(inst))
            return out
    return None


def object_of(t: Any) -> Any:
    """The document a value belongs to: an input, or a copy."""
    while t[0] == "child":
        t = t[1]
    return t


def uncopy(t: Any) -> Any:
    if isinstance(t, tuple) and t and t[0] == "fn" and t[1] == "deepcopy":
        return uncopy(t[3])
    if isinstance(t, tuple) and t and t[0] == "child":
        return ("child", uncopy(t[1]), t[2])
    return t


_INJECTIVE = {"json.dumps", "str", "repr"}


def const(t: Any) -> Any:
    if isinstance(t, tuple):
        c = S.str_const(t)
        if c is not None:
            return c
    return t


def kindset(v: Any) -> Any:
    if v is None:
        return frozenset([NULL])
    if isinstance(v, bool):
        return frozenset([BOOL])
    if isinstance(v, int):
        return frozenset([INT])
    if isinstance(v, float):
        return frozenset([FLOAT])
    if isinstance(v, str):
        return frozenset([STR])
    if isinstance(v, Sym):
        return S.kinds(v.term)
    if isinstance(v, ListV):
        return frozenset(["setlike"]) if I._setlike(v) else frozenset([LIST])
    if isinstance(v, DictV):
        return frozenset([DICT])
    if isinstance(v, (tuple, TupV)):
        return frozenset(["tuple"])
    if isinstance(v, Inst):
        return frozenset(["inst:" + v.cls.name])
    if isinstance(v, (IterV, RangeV)):
        return None
    return None


def brief(v: Any, n: int = 300) -> str:
    if isinstance(v, Inst) and not isinstance(v, (ListV, DictV)):
        if I.subclass(v.cls, I.EXC):
            return v.cls.name
        for k in ("path", "obj"):
            if k in v.f:
                return f"<{v.cls.name} {v.f[k]!r}>"
    s = repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


# --- outcomes -----------------------------------------------------------------------------


class Outcome:
    __slots__ = ("value", "exc", "where", "effects")

    def __init__(self, value: Any = None, exc: Any = None, where: str = "", effects: Any = ()):
        self.value = value
        self.exc = exc
        self.where = where
        self.effects = tuple(effects)


def outcome(f: Callable[[], Any]) -> Outcome:
    n = len(S.effects)
    m = len(S.copies)
    try:
        v = f()
        return Outcome(value=v, effects=S.effects[n:])
    except Raised as r:
        return Outcome(exc=r.exc, where=r.where, effects=S.effects[n:])
    finally:
        del S.effects[n:]
        del S.copies[m:]


def same_outcome(c: Cmp, a: Outcome, b: Outcome, what: str = "result") -> None:
    if a.exc is None and b.exc is None:
        c.same(a.value, b.value, what)
    elif a.exc is not None and b.exc is not None:
        exc_same(a.exc, b.exc, what)
    elif a.exc is not None:
        raise Differ(f"{what}: raises {brief(a.exc)} {a.where}, expected {brief(b.value)}")
    else:
        raise Differ(f"{what}: got {brief(a.value)}, expected to raise {brief(b.exc)}")


_ = (JSON, Dict, freeze)
