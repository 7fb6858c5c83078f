"""Regular languages over Unicode, decided with automata.

Patterns are constants found in the analysed source.  They are parsed with the
standard library's regular expression *parser* (never matched against anything),
turned into expressions with intersection and complement, and decided with
Brzozowski derivatives.  Look-ahead is supported: `(?=A)B` is `A.* & B`.
"""

from __future__ import annotations

import re
from functools import lru_cache
from typing import Dict
from typing import FrozenSet
from typing import List
from typing import Optional
from typing import Tuple

try:
    from re import _constants as sc
    from re import _parser as sp
except ImportError:  # pragma: no cover
    import sre_constants as sc  # type: ignore
    import sre_parse as sp  # type: ignore

MAXC = 0x10FFFF


class Unsupported(Exception):
    """A pattern uses something with no regular meaning here."""


# --- character sets: sorted tuples of disjoint inclusive ranges --------------------


def cs(*ranges: Tuple[int, int]) -> Tuple[Tuple[int, int], ...]:
    out: List[List[int]] = []
    for lo, hi in sorted(ranges):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return tuple((a, b) for a, b in out)


ANY = cs((0, MAXC))
NONE = ()


def cneg(c):
    out, pos = [], 0
    for lo, hi in c:
        if pos < lo:
            out.append((pos, lo - 1))
        pos = hi + 1
    if pos <= MAXC:
        out.append((pos, MAXC))
    return tuple(out)


def cor(a, b):
    return cs(*(a + b))


def cand(a, b):
    return cneg(cor(cneg(a), cneg(b)))


@lru_cache(None)
def _category(name) -> Tuple[Tuple[int, int], ...]:
    pat = {
        sc.CATEGORY_DIGIT: str.isdecimal,
        sc.CATEGORY_SPACE: str.isspace,
        sc.CATEGORY_WORD: lambda ch: ch.isalnum() or ch == "_",
    }
    for k, f in pat.items():
        if name == k:
            ranges, start = [], None
            for i in range(MAXC + 1):
                if f(chr(i)):
                    if start is None:
                        start = i
                elif start is not None:
                    ranges.append((start, i - 1))
                    start = None
            if start is not None:
                ranges.append((start, MAXC))
            return cs(*ranges)
    neg = {
        sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT,
        sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
        sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD,
    }
    if name in neg:
        return cneg(_category(neg[name]))
    raise Unsupported(str(name))


_ASCII = {
    sc.CATEGORY_DIGIT: cs((48, 57)),
    sc.CATEGORY_SPACE: cs((9, 13), (32, 32)),
    sc.CATEGORY_WORD: cs((48, 57), (65, 90), (95, 95), (97, 122)),
}


def category(name, ascii_: bool):
    if ascii_:
        if name in _ASCII:
            return _ASCII[name]
        for neg, pos in (
            (sc.CATEGORY_NOT_DIGIT, sc.CATEGORY_DIGIT),
            (sc.CATEGORY_NOT_SPACE, sc.CATEGORY_SPACE),
            (sc.CATEGORY_NOT_WORD, sc.CATEGORY_WORD),
        ):
            if name == neg:
                return cneg(_ASCII[pos])
    return _category(name)


# --- expressions --------------------------------------------------------------------
# ("0",) ("e",) ("c", cs) (".", a, b) ("|", frozenset) ("&", frozenset) ("*", a) ("~", a)

EMPTY = ("0",)
EPS = ("e",)
ALL = ("~", EMPTY)
_intern: Dict[tuple, tuple] = {}


def _i(t):
    return _intern.setdefault(t, t)


def char(c):
    return _i(("c", c)) if c else EMPTY


def lit(s: str):
    r = EPS
    for ch in reversed(s):
        r = seq(char(cs((ord(ch), ord(ch)))), r)
    return r


def seq(*xs):
    r = EPS
    for x in reversed(xs):
        r = _seq2(x, r)
    return r


def _seq2(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == ".":
        return _seq2(a[1], _seq2(a[2], b))
    return _i((".", a, b))


def alt(*xs):
    out = set()
    cset = NONE
    for x in xs:
        if x == ALL:
            return ALL
        if x[0] == "|":
            items = x[1]
        else:
            items = (x,)
        for y in items:
            if y == ALL:
                return ALL
            if y[0] == "c":
                cset = cor(cset, y[1])
            elif y != EMPTY:
                out.add(y)
    if cset:
        out.add(char(cset))
    if not out:
        return EMPTY
    if len(out) == 1:
        return next(iter(out))
    return _i(("|", frozenset(out)))


def conj(*xs):
    out = set()
    for x in xs:
        if x == EMPTY:
            return EMPTY
        items = x[1] if x[0] == "&" else (x,)
        for y in items:
            if y == EMPTY:
                return EMPTY
            if y != ALL:
                out.add(y)
    if not out:
        return ALL
    if len(out) == 1:
        return next(iter(out))
    return _i(("&", frozenset(out)))


def neg(a):
    if a[0] == "~":
        return a[1]
    return _i(("~", a))


def star(a):
    if a in (EMPTY, EPS):
        return EPS
    if a[0] == "*":
        return a
    return _i(("*", a))


def opt(a):
    return alt(a, EPS)


def plus(a):
    return seq(a, star(a))


@lru_cache(None)
def nullable(a) -> bool:
    k = a[0]
    if k in ("0", "c"):
        return False
    if k in ("e", "*"):
        return True
    if k == ".":
        return nullable(a[1]) and nullable(a[2])
    if k == "|":
        return any(nullable(x) for x in a[1])
    if k == "&":
        return all(nullable(x) for x in a[1])
    if k == "pre":
        return nullable(a[1])
    if k == "st":
        return a[1] == a[2]
    return not nullable(a[1])


@lru_cache(None)
def cuts(a) -> FrozenSet[int]:
    """Where the character classes of _a_ begin (boundaries)."""
    k = a[0]
    if k in ("0", "e"):
        return frozenset()
    if k == "c":
        return frozenset(x for lo, hi in a[1] for x in (lo, hi + 1))
    if k in ("*", "~"):
        return cuts(a[1])
    if k == ".":
        return cuts(a[1]) | (cuts(a[2]) if nullable(a[1]) else frozenset())
    if k in ("pre", "st"):
        return cuts(a[1]) | {x for c, _ in a[-1] for x in (ord(c), ord(c) + 1)}
    return frozenset().union(*(cuts(x) for x in a[1]))


@lru_cache(None)
def deriv(a, c: int):
    k = a[0]
    if k in ("0", "e"):
        return EMPTY
    if k == "c":
        return EPS if any(lo <= c <= hi for lo, hi in a[1]) else EMPTY
    if k == "*":
        return seq(deriv(a[1], c), a)
    if k == "~":
        return neg(deriv(a[1], c))
    if k == ".":
        d = seq(deriv(a[1], c), a[2])
        return alt(d, deriv(a[2], c)) if nullable(a[1]) else d
    if k == "|":
        return alt(*(deriv(x, c) for x in a[1]))
    if k == "pre":
        return preimage(_image(a[1], c, a[2]), a[2])
    if k == "st":
        return reaching(_image(a[1], c, a[3]), a[2], a[3])
    return conj(*(deriv(x, c) for x in a[1]))


def _image(a, c: int, table):
    for k, w in table:
        if ord(k) == c:
            return after(a, w)
    return deriv(a, c)


def after(a, word: str):
    """What may follow _word_ in the words of _a_."""
    for ch in word:
        a = deriv(a, ord(ch))
    return a


def preimage(a, table=()):
    """Words that are in _a_ once their characters are replaced as in _table_."""
    if not table or a in (EMPTY, ALL):
        return a
    return _i(("pre", a, table))


def reaching(a, b, table=()):
    """Words whose images lead from the state _a_ to the state _b_."""
    if a == EMPTY and b != EMPTY:
        return EMPTY
    return _i(("st", a, b, table))


def states(r, a, table=(), limit: int = 400):
    """The states that (the images of) words of _r_ lead to from _a_."""
    out, seen, queue = [], {(r, a)}, [(r, a)]
    while queue:
        x, y = queue.pop()
        if nullable(x) and y not in out:
            out.append(y)
        both = conj(x, _i(("st", y, EPS, table))) if y != EMPTY else x
        bounds = reps(both)
        for p in bounds:
            c = _nice(p, bounds)
            n = (deriv(x, c), _image(y, c, table))
            if n[0] != EMPTY and n not in seen:
                seen.add(n)
                queue.append(n)
                if len(seen) > limit:
                    raise TooBig
    return out


@lru_cache(None)
def alphabet(r):
    """The characters that occur in the words of _r_."""
    out = NONE
    seen, queue = {r}, [r]
    while queue:
        x = queue.pop()
        bounds = reps(x)
        for i, p in enumerate(bounds):
            c = _nice(p, bounds)
            d = deriv(x, c)
            if d == EMPTY or is_empty(d):
                continue
            hi = bounds[i + 1] - 1 if i + 1 < len(bounds) else MAXC
            out = cor(out, cs((p, hi)))
            if d not in seen:
                seen.add(d)
                queue.append(d)
                if len(seen) > 300:
                    return ANY
    return out


def reps(a) -> List[int]:
    """One representative of every class of characters _a_ distinguishes now."""
    pts = {0} | {x for x in cuts(a) if x <= MAXC}
    out = []
    for p in sorted(pts):
        out.append(p)
    return out


_NICE = [ord(c) for c in "abcxyzABC0123456789 _-/\\'\"~#.,:;()[]{}!?*+$@^|&<>=%\n\t\u263a"]


def _nice(p: int, bounds: List[int]) -> int:
    import bisect

    i = bisect.bisect_right(bounds, p)
    hi = bounds[i] - 1 if i < len(bounds) else MAXC
    if p <= 0xD800 <= hi and p == 0xD800:
        return p
    for n in _NICE:
        if p <= n <= hi:
            return n
    if p < 0xD800:
        return p
    if p <= 0xDFFF:
        return 0xE000 if hi >= 0xE000 else p
    return p


class TooBig(Exception):
    """The automaton has more states than the limit."""


def find_word(a, limit: int = 20000) -> Optional[str]:
    """A shortest word of _a_, or None if it is empty."""
    seen = {a: None}
    queue = [a]
    i = 0
    while i < len(queue):
        s = queue[i]
        i += 1
        if nullable(s):
            w = []
            while seen[s] is not None:
                p, c = seen[s]
                w.append(chr(c))
                s = p
            return "".join(reversed(w))
        bounds = reps(s)
        for p in bounds:
            c = _nice(p, bounds)
            d = deriv(s, c)
            if d != EMPTY and d not in seen:
                seen[d] = (s, c)
                queue.append(d)
                if len(queue) > limit:
                    raise TooBig
    return None


@lru_cache(None)
def is_empty(a) -> bool:
    return find_word(a) is None


def subset(a, b) -> bool:
    return is_empty(conj(a, neg(b)))


def equivalent(a, b) -> bool:
    return a == b or (subset(a, b) and subset(b, a))


def contains(a, word: str) -> bool:
    for ch in word:
        a = deriv(a, ord(ch))
    return nullable(a)


def words(a, n: int, maxlen: int = 8) -> List[str]:
    """Some words of _a_, shortest first."""
    out: List[str] = []
    queue = [(a, "")]
    i = 0
    while i < len(queue) and len(out) < n and i < 4000:
        s, w = queue[i]
        i += 1
        if nullable(s):
            out.append(w)
        if len(w) >= maxlen:
            continue
        bounds = reps(s)
        for p in bounds:
            c = _nice(p, bounds)
            d = deriv(s, c)
            if d != EMPTY:
                queue.append((d, w + chr(c)))
    return out


# --- from patterns ------------------------------------------------------------------


def from_pattern(pattern: str, flags: int = 0, cont=EPS):
    """The language of words that _pattern_ matches from beginning to _cont_."""
    tree = sp.parse(pattern, flags)
    fl = tree.state.flags
    return _seq(list(tree), fl, cont)


def fullmatch(pattern: str, flags: int = 0):
    return from_pattern(pattern, flags, EPS)


def prefix(pattern: str, flags: int = 0):
    """Words that `re.match(pattern)` accepts."""
    return from_pattern(pattern, flags, ALL)


def search(pattern: str, flags: int = 0):
    tree = sp.parse(pattern, flags)
    items = list(tree)
    if items and items[0][0] == sc.AT and items[0][1] in (
        sc.AT_BEGINNING,
        sc.AT_BEGINNING_STRING,
    ):
        return _seq(items, tree.state.flags, ALL)
    return seq(ALL, _seq(items, tree.state.flags, ALL))


def _seq(items, fl, cont):
    r = cont
    for it in reversed(items):
        r = _item(it, fl, r)
    return r


def _fold(c, fl):
    if not fl & re.I:
        return c
    out = list(c)
    for lo, hi in c:
        if hi - lo > 3000:
            continue
        for x in range(lo, hi + 1):
            ch = chr(x)
            for y in (ch.lower(), ch.upper()):
                if len(y) == 1:
                    out.append((ord(y), ord(y)))
    return cs(*out)


def _set(items, fl):
    c = NONE
    negate = False
    for op, av in items:
        if op == sc.NEGATE:
            negate = True
        elif op == sc.LITERAL:
            c = cor(c, cs((av, av)))
        elif op == sc.RANGE:
            c = cor(c, cs(av))
        elif op == sc.CATEGORY:
            c = cor(c, category(av, bool(fl & re.A)))
        else:
            raise Unsupported(str(op))
    c = _fold(c, fl)
    return cneg(c) if negate else c


def _item(it, fl, cont):
    op, av = it
    if op == sc.LITERAL:
        return seq(char(_fold(cs((av, av)), fl)), cont)
    if op == sc.NOT_LITERAL:
        return seq(char(cneg(_fold(cs((av, av)), fl))), cont)
    if op == sc.ANY:
        return seq(char(ANY if fl & re.S else cneg(cs((10, 10)))), cont)
    if op == sc.IN:
        return seq(char(_set(av, fl)), cont)
    if op == sc.BRANCH:
        return alt(*(_seq(list(b), fl, cont) for b in av[1]))
    if op == sc.SUBPATTERN:
        _, add, dele, p = av
        return _seq(list(p), (fl | add) & ~dele, cont)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, p = av
        body = _seq(list(p), fl, EPS)
        r = cont
        if hi == sc.MAXREPEAT:
            r = seq(star(body), cont)
        else:
            tail = EPS
            for _ in range(hi - lo):
                tail = opt(seq(body, tail))
            r = seq(tail, cont)
        for _ in range(lo):
            r = seq(body, r)
        if _has_look(p):
            raise Unsupported("look-around in a repeat")
        return r
    if op == sc.ASSERT:
        d, p = av
        if d != 1:
            raise Unsupported("look-behind")
        return conj(_seq(list(p), fl, ALL), cont)
    if op == sc.ASSERT_NOT:
        d, p = av
        if d != 1:
            raise Unsupported("look-behind")
        return conj(neg(_seq(list(p), fl, ALL)), cont)
    if op == sc.AT:
        if av == sc.AT_END_STRING:
            return conj(EPS, cont)
        if av == sc.AT_END and not fl & re.M:
            return conj(alt(EPS, lit("\n")), cont)
        if av == sc.AT_END:
            return conj(alt(EPS, seq(lit("\n"), ALL)), cont)
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and not fl & re.M:
            return cont  # only meaningful first; callers use it that way
        if av == sc.AT_BOUNDARY:
            # Used after a word character: not followed by one.
            w = char(category(sc.CATEGORY_WORD, bool(fl & re.A)))
            return conj(neg(seq(w, ALL)), cont)
        raise Unsupported(str(av))
    raise Unsupported(str(op))


def _has_look(p) -> bool:
    for op, av in p:
        if op in (sc.ASSERT, sc.ASSERT_NOT, sc.AT):
            return True
        if op == sc.SUBPATTERN and _has_look(av[3]):
            return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and _has_look(av[2]):
            return True
        if op == sc.BRANCH and any(_has_look(b) for b in av[1]):
            return True
    return False
