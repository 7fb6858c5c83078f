"""The groups of a match of a known pattern against a partly known text.

The text is a sequence of known and unknown parts.  Matching follows the pattern with
Python's priorities; an unknown part is consumed as a whole or not at all, and anything
that would need its inner structure is undecided.
"""

from __future__ import annotations

import re
from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

from . import dfa
from .dfa import sc
from .dfa import sp
from .values import S
from .values import mk
from .values import undecided

Pos = Tuple[int, int]
Groups = Dict[int, Tuple[Pos, Pos]]


class _Text:
    def __init__(self, t: Any):
        from .strings import parts_of

        self.parts: List[Any] = [p for p in parts_of(t) if p != ""]

    def norm(self, pos: Pos) -> Pos:
        i, k = pos
        while i < len(self.parts) and isinstance(self.parts[i], str) and k >= len(self.parts[i]):
            i, k = i + 1, 0
        return i, k

    def between(self, a: Pos, b: Pos) -> Any:
        from .pylib import cat_term

        out: List[Any] = []
        (i, k), (j, n) = self.norm(a), self.norm(b)
        while i < j:
            p = self.parts[i]
            out.append(p[k:] if isinstance(p, str) else p)
            i, k = i + 1, 0
        if n:
            out.append(self.parts[j][k:n])
        return cat_term(out) if out else ""

    def char(self, pos: Pos, c: Any) -> Optional[Pos]:
        """Past one character of the class _c_, or None if there is none."""
        i, k = self.norm(pos)
        if i == len(self.parts):
            return None
        p = self.parts[i]
        if isinstance(p, str):
            x = ord(p[k])
            return (i, k + 1) if any(lo <= x <= hi for lo, hi in c) else None
        if S.in_lang(p, dfa.EPS):
            return self.char((i + 1, 0), c)
        if not S.in_lang(p, dfa.seq(dfa.char(c), dfa.ALL)):
            return None
        if S.in_lang(p, dfa.char(c)):
            return (i + 1, 0)
        return undecided("part of an unknown string is matched")


def spans(pattern: str, flags: int, kind: str, term: Any) -> Optional[Groups]:
    text = _Text(term)
    tree = sp.parse(pattern, flags)
    fl = tree.state.flags

    def seq(items: List[Any], fl: int, pos: Pos, g: Groups, k: Callable[[Pos, Groups], Any]) -> Any:
        if not items:
            return k(pos, g)
        return item(items[0], fl, pos, g, lambda p, h: seq(items[1:], fl, p, h, k))

    def item(it: Any, fl: int, pos: Pos, g: Groups, k: Callable[[Pos, Groups], Any]) -> Any:
        op, av = it
        c = _class(it, fl)
        if c is not None:
            p = text.char(pos, c)
            return None if p is None else k(p, g)
        if op == sc.SUBPATTERN:
            n, add, dele, body = av

            def close(p: Pos, h: Groups) -> Any:
                return k(p, {**h, n: (pos, p)} if n is not None else h)

            return seq(list(body), (fl | add) & ~dele, pos, g, close)
        if op == sc.BRANCH:
            for b in av[1]:
                r = seq(list(b), fl, pos, g, k)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            inner = list(body)
            c = _class(inner[0], fl) if len(inner) == 1 else None
            if c is not None and op == sc.MAX_REPEAT:
                return span(c, lo, hi, pos, g, k)
            return repeat(inner, lo, hi, op == sc.MAX_REPEAT, fl, 0, pos, g, k)
        if op == sc.AT:
            at_end = text.norm(pos)[0] == len(text.parts)
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and text.norm(pos) == text.norm((0, 0)):
                return k(pos, g)
            if av == sc.AT_END_STRING or (av == sc.AT_END and not fl & re.M):
                if at_end:
                    return k(pos, g)
                rest = text.between(pos, (len(text.parts), 0))
                ends = dfa.EPS if av == sc.AT_END_STRING else dfa.alt(dfa.EPS, dfa.lit("\n"))
                ok = dfa.contains(ends, rest) if isinstance(rest, str) else S.in_lang(rest, ends)
                return k(pos, g) if ok else None
        return undecided(f"groups of {pattern!r}")

    def repeat(inner: List[Any], lo: int, hi: Any, greedy: bool, fl: int, n: int, pos: Pos, g: Groups, k: Any) -> Any:
        if n > 200:
            return undecided("too many repetitions")

        def more() -> Any:
            if hi != sc.MAXREPEAT and n >= hi:
                return None
            return seq(
                inner, fl, pos, g,
                lambda p, h: None if text.norm(p) == text.norm(pos) and n >= lo
                else repeat(inner, lo, hi, greedy, fl, n + 1, p, h, k),
            )  # fmt: skip

        if n < lo:
            return more()
        first, second = (more, lambda: k(pos, g)) if greedy else (lambda: k(pos, g), more)
        r = first()
        return r if r is not None else second()

    def span(c: Any, lo: int, hi: Any, pos: Pos, g: Groups, k: Any) -> Any:
        """As many characters of a class as there are."""
        ends: List[Tuple[Pos, int, bool]] = []
        n, p, exact = 0, text.norm(pos), True
        ends.append((p, 0, True))
        whole = dfa.star(dfa.char(c))
        while p[0] < len(text.parts) and (hi == sc.MAXREPEAT or n < hi):
            part = text.parts[p[0]]
            if isinstance(part, str):
                x = ord(part[p[1]])
                if not any(a <= x <= b for a, b in c):
                    break
                p = text.norm((p[0], p[1] + 1))
                n += 1
                ends.append((p, n, exact))
                continue
            if S.in_lang(part, whole):
                if hi != sc.MAXREPEAT:
                    return undecided("a bounded repetition over an unknown string")
                one = dfa.seq(dfa.char(dfa.ANY), dfa.ALL)
                n += 1 if S.in_lang(part, one) else 0
                exact = False
                p = text.norm((p[0] + 1, 0))
                ends.append((p, n, False))
                continue
            if S.in_lang(part, dfa.alt(dfa.EPS, dfa.seq(dfa.char(dfa.cneg(c)), dfa.ALL))):
                break
            return undecided("part of an unknown string is matched")
        for p, n, ex in reversed(ends):
            if n < lo:
                if not ex:
                    return undecided("the number of repetitions")
                return None
            r = k(p, g)
            if r is not None:
                return r
            if not ex:
                return undecided("backtracking into an unknown string")
        return None

    def done(p: Pos, g: Groups) -> Optional[Groups]:
        if kind == "fullmatch" and text.norm(p)[0] != len(text.parts):
            return None
        return {**g, 0: ((0, 0), p)}

    if kind not in ("match", "fullmatch"):
        return undecided("groups of a search")
    r = seq(list(tree), fl, (0, 0), {}, done)
    if r is None:
        return None
    return {n: (text.between(a, b)) for n, (a, b) in r.items()}


def _class(it: Any, fl: int) -> Any:
    op, av = it
    if op == sc.LITERAL:
        return dfa._fold(dfa.cs((av, av)), fl)
    if op == sc.NOT_LITERAL:
        return dfa.cneg(dfa._fold(dfa.cs((av, av)), fl))
    if op == sc.ANY:
        return dfa.ANY if fl & re.S else dfa.cneg(dfa.cs((10, 10)))
    if op == sc.IN:
        return dfa._set(av, fl)
    return None


def group(m: Any, g: Any) -> Any:
    if not (isinstance(g, (int, str)) and not isinstance(g, bool)):
        return undecided("a group that isn't known")
    found = m.spans
    if found is None:
        found = spans(m.regex.pattern, int(m.regex.flags), m.kind, m.text.term)
        if found is None:
            return undecided("whether there is a match")
        m.spans = found
    if isinstance(g, str):
        g = re.compile(m.regex.pattern, int(m.regex.flags)).groupindex[g]
    if g not in found:
        return None
    t = found[g]
    return t if isinstance(t, str) else mk(t)
