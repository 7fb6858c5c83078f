"""JSON Pointer: text, tokens, resolution and navigation."""

from __future__ import annotations

import ast
from typing import Any
from typing import Callable
from typing import List

from .. import dfa
from .. import interp as I
from .. import pylib
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import call
from ..scen import json
from ..scen import repo
from ..scen import spec
from ..scen import string
from ..state import JSON
from ..state import STR
from ..values import Item
from ..values import TupV


DOC = JSON - {STR}
LIMIT = 2**53 - 1

NEGATIVE = dfa.fullmatch(r"-[1-9][0-9]*")
MARKED = dfa.fullmatch(r"[#~].*", 16)
BACKSLASH = dfa.fullmatch(r"(?s:.*\\.*)")
# RFC 6901 tokens without the documented extensions.
PLAIN = dfa.conj(dfa.neg(NEGATIVE), dfa.neg(MARKED))
PLAIN_ASCII = dfa.conj(PLAIN, dfa.neg(BACKSLASH))
NO_BACKSLASH = dfa.neg(BACKSLASH)
# Tokens whose escaped form may be joined to a pointer (a leading blank is dropped).
JOINABLE = dfa.conj(NO_BACKSLASH, dfa.neg(dfa.prefix(r"\s")))


def tokens(n: int, lang: Any = None, name: str = "t") -> TupV:
    return TupV(tuple(Item(string(f"{name}{i + 1}", lang)) for i in range(n)))


def text(ts: Any) -> Any:
    return I.call(spec("pointer.text"), [ts])


def pointer(s: Any, **k: Any) -> Any:
    return I.call(repo("jsonpath.pointer.JSONPointer"), [s], k)


def parsed(ts: Any, esc: bool = False) -> Any:
    return pointer(text(ts), unicode_escape=esc)


def to_str(p: Any) -> Any:
    return I.call(I.pyclass(str), [p])


def mode(esc: bool) -> str:
    return f"escape decoding {'on' if esc else 'off'}"


def resolution(depths: Any = (0, 1, 2), seconds: float = 60.0, doc_depth: int = 4) -> List[Result]:
    """RFC 6901 spellings of unknown tokens, resolved against an unknown document."""
    out = []
    outcome = spec("pointer.outcome")

    def add(name: str, what: str, setup: Any, actual: Any, expected: Any) -> None:
        out.append(
            product(name, what, setup, actual, expected, Cmp,
                    seconds=seconds, doc_depth=doc_depth, short_ints=LIMIT)
        )  # fmt: skip

    for esc in (False, True):
        for n in depths:
            name = f"{n} tokens, {mode(esc)}"

            def plain(n: int = n, esc: bool = esc) -> Any:
                return json("doc", DOC), tokens(n, PLAIN_ASCII if esc else PLAIN)

            def anything(n: int = n, esc: bool = esc) -> Any:
                return json("doc", DOC), tokens(n, NO_BACKSLASH if esc else None)

            add(
                f"resolve {name}",
                "the value, or a resolution error where there is none",
                plain,
                lambda x, esc=esc: I.call(outcome, [parsed(x[1], esc), x[0]]),
                lambda x: I.call(spec("pointer.resolve"), [x[0], x[1]]),
            )
            add(
                f"resolve node {name}",
                "the node a pointer spells, whatever characters the names contain",
                anything,
                lambda x, esc=esc: I.call(
                    spec("pointer.outcome_of_nodes"), [parsed(x[1], esc), x[0], x[1]]
                ),
                lambda x: I.call(spec("pointer.resolve_nodes"), [x[0], x[1]]),
            )
            add(
                f"resolve with a default {name}",
                "the value, or the caller's default where there is none",
                plain,
                lambda x, esc=esc: call(parsed(x[1], esc), "resolve", x[0], default=json("default")),
                lambda x: I.call(spec("pointer.expected_default"), [x[0], x[1], json("default")]),
            )
            add(
                f"exists {name}",
                "whether there is a value",
                plain,
                lambda x, esc=esc: call(parsed(x[1], esc), "exists", x[0]),
                lambda x: I.call(spec("pointer.exists"), [x[0], x[1]]),
            )
            add(
                f"exists agrees with resolve {name}",
                "`exists` holds exactly when `resolve` succeeds, for tokens of any kind",
                anything,
                lambda x, esc=esc: I.call(spec("pointer.exists_agrees"), [parsed(x[1], esc), x[0]]),
                lambda x: True,
            )
            add(
                f"function {name}",
                "`jsonpath.pointer.resolve` of the pointer's text",
                plain,
                lambda x, esc=esc: I.call(
                    spec("pointer.module_outcome"),
                    [repo("jsonpath.pointer.resolve"), text(x[1]), x[0], esc],
                ),
                lambda x: I.call(spec("pointer.resolve"), [x[0], x[1]]),
            )
            add(
                f"function with a default {name}",
                "`jsonpath.pointer.resolve` with a default",
                plain,
                lambda x, esc=esc: I.call(
                    repo("jsonpath.pointer.resolve"),
                    [text(x[1]), x[0]],
                    {"default": json("default"), "unicode_escape": esc},
                ),
                lambda x: I.call(spec("pointer.expected_default"), [x[0], x[1], json("default")]),
            )
            add(
                f"function of parts {name}",
                "`jsonpath.pointer.resolve` of a list of tokens",
                plain,
                lambda x, esc=esc: I.call(
                    spec("pointer.module_outcome"),
                    [repo("jsonpath.pointer.resolve"), x[1], x[0], esc],
                ),
                lambda x: I.call(spec("pointer.resolve"), [x[0], x[1]]),
            )
    return out


def text_and_tokens(n: int = 3, seconds: float = 60.0) -> List[Result]:
    """Parsing, printing, equality and building from tokens."""
    out = []
    cls = repo("jsonpath.pointer.JSONPointer")

    def add(name: str, what: str, setup: Any, actual: Any, expected: Any) -> None:
        out.append(
            product(name, what, setup, actual, expected, Cmp,
                    seconds=seconds, short_ints=LIMIT)
        )  # fmt: skip

    def from_parts(ts: Any, esc: bool) -> Any:
        return I.call(I.getattr_(cls, "from_parts"), [ts], {"unicode_escape": esc})

    def joined(ts: Any) -> Any:
        p = pointer("", unicode_escape=False)
        for t in I.iter_segs(ts):
            p = call(p, "join", I.call(spec("pointer.encode"), [t.v]))
        return p

    def sliced(ts: Any, esc: bool) -> Any:
        more = TupV((*I.iter_segs(ts), Item("x")))
        return call(parsed(more, esc), "parent")

    for esc in (False, True):
        lang = NO_BACKSLASH if esc else None
        ways = {
            "parsed": lambda ts, esc=esc: parsed(ts, esc),
            "built from tokens": lambda ts, esc=esc: from_parts(ts, esc),
            "joined": lambda ts: joined(ts),
            "a parent": lambda ts, esc=esc: sliced(ts, esc),
        }
        for i in range(n + 1):
            setup = lambda i=i, lang=lang: tokens(i, lang)  # noqa: E731
            for way, f in ways.items():
                if way == "joined":
                    # A part that starts with a slash or a blank isn't an escaped token.
                    setup = lambda i=i: tokens(i, JOINABLE)  # noqa: E731
                add(
                    f"print {way} {i} tokens, {mode(esc)}",
                    f"the text of a pointer that is {way}",
                    setup,
                    lambda x, f=f: to_str(f(x)),
                    lambda x: text(x),
                )
        small = [(i, j) for i in range(3) for j in range(3)]
        names = list(ways)
        pairs = [(a, b) for k, a in enumerate(names) for b in names[k:]]
        for a, b in pairs:
            for i, j in small:
                la = JOINABLE if "joined" in (a, b) else lang
                setup = lambda i=i, j=j, la=la: (tokens(i, la), tokens(j, la, "u"))  # noqa: E731
                add(
                    f"equality {a}/{b} {i}/{j} tokens, {mode(esc)}",
                    f"a pointer that is {a} and one that is {b} are equal exactly when their tokens are",
                    setup,
                    lambda x, f=ways[a], g=ways[b]: I.eq(f(x[0]), g(x[1])),
                    lambda x: I.call(spec("pointer.same_tokens"), [x[0], x[1]]),
                )
    return out


def navigation(n: int = 2, seconds: float = 60.0) -> List[Result]:
    """Joining, parents, and what is relative to what."""
    out = []

    def add(name: str, what: str, setup: Any, actual: Any, expected: Any, depth: int = 3) -> None:
        out.append(
            product(name, what, setup, actual, expected, Cmp,
                    seconds=seconds, short_ints=LIMIT, doc_depth=depth)
        )  # fmt: skip

    enc = spec("pointer.encode")

    def div(p: Any, s: Any) -> Any:
        return I.binop(ast.Div(), p, s)

    def join(p: Any, s: Any) -> Any:
        return call(p, "join", s)

    def plus(ts: Any, *more: Any) -> Any:
        return TupV((*I.iter_segs(ts), *[Item(m) for m in more]))

    for esc in (False, True):
        lang = NO_BACKSLASH if esc else None
        for i in range(n + 1):
            for op, f in (("/", div), ("join", join)):
                setup = lambda i=i, lang=lang: (tokens(i, lang), string("t", JOINABLE))  # noqa: E731
                name = f"{op} onto {i} tokens, {mode(esc)}"

                def both(x: Any, f: Any = f, esc: bool = esc) -> Any:
                    p = parsed(x[0], esc)
                    return p, f(p, I.call(enc, [x[1]]))

                add(f"text of {name}", "the text of a joined pointer", setup,
                    lambda x, g=both: to_str(g(x)[1]),
                    lambda x: text(plus(x[0], x[1])))  # fmt: skip
                add(f"parent of {name}", "the parent of a joined pointer", setup,
                    lambda x, g=both: (lambda p, q: I.eq(call(q, "parent"), p))(*g(x)),
                    lambda x: True)  # fmt: skip
                add(f"relative {name}", "a joined pointer is relative to what it was joined to, and not the reverse", setup,
                    lambda x, g=both: (lambda p, q: (call(q, "is_relative_to", p), call(p, "is_relative_to", q)))(*g(x)),
                    lambda x: (True, False))  # fmt: skip
                def rsetup(i: int = i, esc: bool = esc) -> Any:
                    return tokens(i, PLAIN_ASCII if esc else PLAIN), string("t", dfa.conj(JOINABLE, PLAIN)), json("doc", DOC)

                add(f"resolution of {name}", "a joined pointer resolves to a step from where the pointer resolves to", rsetup,
                    lambda x, g=both: I.call(spec("pointer.outcome"), [g(x)[1], x[2]]),
                    lambda x: I.call(spec("pointer.resolve"), [x[2], plus(x[0], x[1])]))  # fmt: skip
                asetup = lambda i=i, lang=lang: (tokens(i, lang), tokens(2, NO_BACKSLASH, "u"))  # noqa: E731
                add(f"absolute {name}", "a joined part that starts with a slash replaces the pointer", asetup,
                    lambda x, f=f, esc=esc: (lambda q: (to_str(q), I.eq(q, parsed(x[1], True))))(f(parsed(x[0], esc), text(x[1]))),
                    lambda x: (text(x[1]), True))  # fmt: skip
            add(
                f"parent of {i + 1} tokens, {mode(esc)}",
                "the parent of a pointer has all tokens but the last",
                lambda i=i, lang=lang: tokens(i + 1, lang),
                lambda x, esc=esc: (lambda q: (to_str(q), I.eq(q, parsed(TupV(tuple(I.iter_segs(x)[:-1])), esc))))(call(parsed(x, esc), "parent")),
                lambda x: (text(TupV(tuple(I.iter_segs(x)[:-1]))), True),
            )
            for j in range(n + 1):
                add(
                    f"is_relative_to {i}/{j} tokens, {mode(esc)}",
                    "a pointer is relative to another exactly when the other's tokens are a proper prefix of its own",
                    lambda i=i, j=j, lang=lang: (tokens(i, lang), tokens(j, lang, "u")),
                    lambda x, esc=esc: call(parsed(x[0], esc), "is_relative_to", parsed(x[1], esc)),
                    lambda x: I.call(spec("pointer.proper_prefix"), [x[1], x[0]]),
                )
    add(
        "root parent",
        "the parent of the root pointer is the root pointer",
        lambda: pointer(""),
        lambda p: (to_str(call(p, "parent")), I.eq(call(p, "parent"), p), to_str(p)),
        lambda p: ("", True, ""),
    )
    add(
        "join of several",
        "joining several parts one after another",
        lambda: (tokens(1, NO_BACKSLASH), string("a", JOINABLE), string("b", JOINABLE)),
        lambda x: to_str(
            call(parsed(x[0]), "join", I.call(enc, [x[1]]), I.call(enc, [x[2]]))
        ),
        lambda x: text(plus(x[0], x[1], x[2])),
    )
    add(
        "join of several, absolute",
        "a part that starts with a slash replaces what was joined before it",
        lambda: (tokens(1, NO_BACKSLASH), string("a", JOINABLE), tokens(1, NO_BACKSLASH, "u"), string("b", JOINABLE)),
        lambda x: to_str(
            call(parsed(x[0]), "join", I.call(enc, [x[1]]), text(x[2]), I.call(enc, [x[3]]))
        ),
        lambda x: text(plus(x[2], x[3])),
    )
    return out


_ = (Callable, List, pylib)
