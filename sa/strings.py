"""Strings built from unknown strings character by character.

`("hom", t, ((c, image), ...))` is the string _t_ with every character _c_ replaced
by its image; characters that aren't listed stay as they are.  `str.replace`, JSON
string encoding and decoding, and the escapes of JSON Pointer stay within this
domain as long as no occurrence of what is replaced can straddle the images of two
characters, which is checked.
"""

from __future__ import annotations

import json
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

from . import dfa
from .state import KSTR
from .state import Undecided
from .state import ladd
from .values import S

Table = Dict[str, str]


def parts_of(t: Any) -> List[Any]:
    if isinstance(t, tuple) and t and t[0] == "cat":
        return list(t[1:])
    return [t]


def as_hom(t: Any) -> Tuple[Any, Table]:
    if isinstance(t, tuple) and t[0] == "hom":
        return t[1], dict(t[2])
    return t, {}


def may_contain(t: Any, c: str) -> bool:
    """Could the string _t_ contain the text _c_?"""
    r = S.lang(t)
    if r == dfa.ALL:
        return True
    return not dfa.is_empty(dfa.conj(r, dfa.seq(dfa.ALL, dfa.lit(c), dfa.ALL)))


def mkhom(t: Any, tab: Table) -> Any:
    items = tuple(
        sorted((c, w) for c, w in tab.items() if c != w and may_contain(t, c))
    )
    return ("hom", t, items) if items else t


def plain(t: Any) -> Any:
    """_t_ as what is known by now makes it."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "hom":
        return mkhom(t[1], dict(t[2]))
    if t[0] == "strof" and not isinstance(t[1], int) and S.lin_implied(ladd(t[1], -8)):
        for n in range(-2, 9):
            if S.eq0_implied(ladd(t[1], -n)):
                return str(n)
    return t


_homs: Dict[Any, bool] = {}


def has_hom(t: Any) -> bool:
    if not isinstance(t, tuple) or not t:
        return False
    try:
        r = _homs.get(t)
    except TypeError:
        return False
    if r is None:
        r = t[0] == "hom" or any(isinstance(x, tuple) and has_hom(x) for x in t)
        _homs[t] = r
    return r


def settle(t: Any) -> Any:
    """A term with its strings as what is known by now makes them.

    What is replaced in a string may turn out not to occur in it.
    """
    if not has_hom(t):
        return t
    if t[0] == "hom":
        return mkhom(settle(t[1]), dict(t[2]))
    if t[0] == "cat":
        from .pylib import cat_term

        return cat_term([settle(x) for x in t[1:]])
    new = tuple(settle(x) if isinstance(x, tuple) else x for x in t)
    return t if new == t else new


def same_base(a: Any, b: Any) -> Optional[bool]:
    """Equality of two images of one string, or None if they aren't."""
    x, f = as_hom(a)
    y, g = as_hom(b)
    if x != y or not (f or g):
        return None
    f, g = ({c: w for c, w in h.items() if may_contain(x, c)} for h in (f, g))
    if f == g:
        return True
    chars = [c for c in {*f, *g} if f.get(c, c) != g.get(c, c)]
    has = dfa.alt(*[dfa.seq(dfa.ALL, dfa.lit(c), dfa.ALL) for c in chars])
    if not S.in_lang(x, has):
        return True
    d = {len(f.get(c, c)) - len(g.get(c, c)) for c in chars}
    if min(d) > 0 or max(d) < 0:
        return False
    raise Undecided("images of one string")


def _straddles(t: Any, tab: Table, a: str) -> bool:
    """Could an occurrence of _a_ involve the images of two characters of _t_?"""
    if len(a) < 2:
        return False
    imgs = [w for c, w in tab.items() if may_contain(t, c)]
    if "" in imgs:
        return True

    def ends(c: str) -> bool:
        return any(w[-1] == c for w in imgs) or (c not in tab and may_contain(t, c))

    def begins(c: str) -> bool:
        return any(w[0] == c for w in imgs) or (c not in tab and may_contain(t, c))

    return any(ends(a[i - 1]) and begins(a[i]) for i in range(1, len(a)))


def _edge(p: Any, c: str, last: bool) -> bool:
    """Could the part _p_ end (or begin) with the character _c_ (or be empty)?"""
    if isinstance(p, str):
        return not p or (p[-1] if last else p[0]) == c
    t, tab = as_hom(p)
    if any(may_contain(t, x) and (not w or (w[-1] if last else w[0]) == c) for x, w in tab.items()):
        return True
    if c in tab:
        return False
    return may_contain(t, c)


def replace(t: Any, a: str, b: str) -> Optional[Any]:
    """`t.replace(a, b)` as a term, or None if it isn't in the domain."""
    from .pylib import cat_term

    if not a:
        return None
    parts = parts_of(t)
    if len(a) > 1 and len(parts) > 1:
        for x, y in zip(parts, parts[1:]):
            for i in range(1, len(a)):
                if _edge(x, a[i - 1], True) and _edge(y, a[i], False):
                    return None
            if not isinstance(x, str) and not isinstance(y, str):
                # An unknown part may be empty.
                pass
        # A part between two others may be empty.
        for i in range(1, len(parts) - 1):
            if not isinstance(parts[i], str):
                for j in range(1, len(a)):
                    if _edge(parts[i - 1], a[j - 1], True) and _edge(parts[i + 1], a[j], False):
                        return None
    out: List[Any] = []
    for p in parts:
        if isinstance(p, str):
            out.append(p.replace(a, b))
            continue
        x, tab = as_hom(p)
        if x[0] == "strof" and not (set(a) & set("-0123456789")):
            out.append(p)
            continue
        if _straddles(x, tab, a):
            if not may_contain(p, a):
                out.append(p)
                continue
            return None
        new = {c: w.replace(a, b) for c, w in tab.items()}
        if len(a) == 1 and a not in tab:
            new[a] = b
        out.append(mkhom(x, new))
    return cat_term(out)


_JSON_ESC = {c: json.dumps(c)[1:-1] for c in map(chr, range(32))}
_JSON_ESC['"'] = '\\"'
_JSON_ESC["\\"] = "\\\\"


def compose(t: Any, f: Table) -> Any:
    """The images of the characters of _t_ under _f_."""
    from .pylib import cat_term

    out: List[Any] = []
    for p in parts_of(t):
        if isinstance(p, str):
            out.append("".join(f.get(c, c) for c in p))
        elif p[0] == "strof" and not (set(f) & set("-0123456789")):
            out.append(p)
        else:
            x, tab = as_hom(p)
            new = {c: "".join(f.get(d, d) for d in w) for c, w in tab.items()}
            for c, w in f.items():
                if c not in new:
                    new[c] = w
            out.append(mkhom(x, new))
    return cat_term(out)


def json_text(t: Any, ascii_: bool) -> Optional[Any]:
    """The JSON encoding of a string (with its quotes)."""
    from .pylib import cat_term

    if ascii_:
        if dfa.subset(S.lang(t), dfa.star(dfa.char(dfa.cs((0, 126))))):
            pass
        else:
            return None
    return cat_term(['"', compose(t, _JSON_ESC), '"'])


def json_decode(t: Any) -> Any:
    """The string that the JSON text _t_ is, None, or False if it isn't JSON."""
    from .pylib import cat_term

    parts = parts_of(t)
    if not (isinstance(parts[0], str) and parts[0].startswith('"')):
        return None
    if not (isinstance(parts[-1], str) and parts[-1].endswith('"')):
        return None
    parts = [parts[0][1:], *parts[1:]] if len(parts) > 1 else [parts[0][1:-1]]
    if len(parts) > 1:
        parts[-1] = parts[-1][:-1]

    def dec(w: str) -> Optional[str]:
        try:
            r = json.loads(f'"{w}"')
        except ValueError:
            return None
        if any(0xD800 <= ord(c) <= 0xDFFF for c in r) and "\\u" in w:
            return None
        return r

    out: List[Any] = []
    for p in parts:
        if isinstance(p, str):
            r = dec(p)
            if r is None:
                return None
            out.append(r)
        elif p[0] == "strof":
            out.append(p)
        else:
            x, tab = as_hom(p)
            new: Table = {}
            for c in [*map(chr, range(32)), '"', "\\", *tab]:
                w = tab.get(c, c)
                if not may_contain(x, c):
                    continue
                r = dec(w)
                if r is None:
                    return None
                new[c] = r
            out.append(mkhom(x, new))
    return cat_term(out)


def lang_of(t: Any, rec: Any) -> Any:
    """The language of a composed string, from those of its parts."""
    if t[0] == "cat":
        return dfa.seq(*[dfa.lit(p) if isinstance(p, str) else rec(p) for p in t[1:]])
    if t[0] == "hom":
        src = rec(t[1])
        tab = dict(t[2])
        if src == dfa.EMPTY:
            return src
        # (The order of the characters is lost.)
        chars = dfa.alphabet(src) if src != dfa.ALL else dfa.ANY
        imgs = [
            dfa.lit(w) for c, w in tab.items() if dfa.cand(chars, dfa.cs((ord(c), ord(c))))
        ]
        rest = dfa.cand(chars, dfa.cneg(dfa.cs(*[(ord(c), ord(c)) for c in tab])))
        unit = dfa.alt(dfa.char(rest), *imgs)
        if dfa.contains(src, ""):
            return dfa.star(unit)
        return dfa.seq(unit, dfa.star(unit))
    return dfa.ALL


def split_lang(t: Any, r: Any) -> Optional[bool]:
    """Whether a composed string is in the language _r_, decided on its unknown parts.

    None means that it would take too many cases.
    """
    parts = parts_of(t)
    for i, p in enumerate(parts):
        if isinstance(p, str):
            r = dfa.after(r, p)
            continue
        rest = parts[i + 1 :]
        x, tab = (p[1], p[2]) if p[0] == "hom" else (p, ())
        if not rest:
            return S.in_lang(x, dfa.preimage(r, tab))
        after = dfa.seq(*[dfa.lit(q) if isinstance(q, str) else S.lang(q) for q in rest])
        try:
            found = dfa.states(S.lang(x), r, tab)
        except dfa.TooBig:
            return None
        yes, no, other = [], [], []
        for q in found:
            if dfa.is_empty(dfa.conj(after, q)):
                no.append(q)
            elif dfa.subset(after, q):
                yes.append(q)
            else:
                for o in other:
                    if dfa.equivalent(o[0], q):
                        o.append(q)
                        break
                else:
                    other.append([q])
        if len(other) > 6:
            return None
        cases = [(g, v) for g, v in ((no, False), (yes, True)) if g]
        cases += [(g, g[0]) for g in other]
        for g, v in cases[:-1]:
            if S.in_lang(x, dfa.alt(*[dfa.reaching(r, q, tab) for q in g])):
                break
        else:
            v = cases[-1][1]
        if isinstance(v, bool):
            return v
        r = v
    return dfa.nullable(r)


_ = KSTR
