"""Which errors come out, for texts and documents of every kind."""

from __future__ import annotations

import time
from itertools import product as combos
from typing import Any
from typing import Callable
from typing import Iterable
from typing import List
from typing import Optional
from typing import Sequence
from typing import Tuple

from .. import dfa
from .. import interp as I
from .. import pylib
from ..check import Result
from ..check import run_partitions
from ..cmp import Differ
from ..scen import FCTX
from ..scen import call
from ..scen import env
from ..scen import integer
from ..scen import json
from ..scen import repo
from ..scen import spec
from ..scen import string
from ..state import Budget
from ..state import DICT
from ..state import Endless
from ..state import JSON
from ..state import LIST
from ..state import STR
from .pointers import NO_BACKSLASH
from ..values import Raised
from ..values import Item
from ..values import S
from ..values import Sym

DOC = JSON - {STR}
# More than any text of a few dozen characters takes.
STEPS = 150_000


def family(*names: str) -> Tuple[Any, ...]:
    return tuple(repo(f"jsonpath.exceptions.{n}") for n in names)


def guarded(what: str, classes: Sequence[Any], do: Callable[[], Any]) -> Tuple[bool, Any]:
    """Do something that may fail, but only like this; how it failed can be printed."""
    try:
        return True, do()
    except Raised as r:
        if not any(r.exc.cls.is_sub(c) for c in classes):
            raise Differ(f"{what}: {r.exc.cls.name} comes out") from None
        failed = r.exc
    except Endless:
        raise Differ(f"{what} does not end") from None
    try:
        s = I.call(I.pyclass(str), [failed])
    except Raised as r:
        raise Differ(f"{what}: printing its {failed.cls.name} raises {r.exc.cls.name}") from None
    if not isinstance(s, str) and not isinstance(s, Sym):
        raise Differ(f"{what}: a {failed.cls.name} isn't printed as text")
    return False, failed


def compiled(e: Any, text: str) -> Any:
    S.max_steps = S.steps + STEPS
    try:
        ok, p = guarded(f"compiling {text!r}", family("JSONPathError"), lambda: call(e, "compile", text))
    except Budget as b:
        if "steps" in str(b):
            raise Differ(f"compiling {text!r} does not end") from None
        raise
    finally:
        S.max_steps = 10_000_000
    return p if ok else None


def queries(name: str, texts: Sequence[str], e: Any = None, evaluated: bool = True, doc_depth: int = 2, seconds: float = 60.0, how: str = "findall") -> Result:
    """Each text is a query or refused, and a query finds something or fails properly."""
    e = e or env()
    res = Result(name, "compiling and evaluating fails only with a JSONPath error, which can be printed")

    def one() -> None:
        text = texts[S.fork(0, len(texts))]
        p = compiled(e, text)
        if p is not None and evaluated:
            doc = json("doc", DOC)
            guarded(f"evaluating {text!r}", family("JSONPathError"), lambda: HOW[how](p, doc))

    pylib.WORLD["every regex error"] = True
    try:
        return run_partitions(res, one, 1000000, seconds, doc_depth)
    finally:
        pylib.WORLD.clear()


def _async(p: Any, doc: Any) -> Any:
    from .agree import awaited

    return awaited(call(p, "findall_async", doc, filter_context=FCTX))


HOW = {
    "findall": lambda p, doc: call(p, "findall", doc, filter_context=FCTX),
    "match": lambda p, doc: call(p, "match", doc, filter_context=FCTX),
    "async": _async,
}

# --- odd texts ---------------------------------------------------------------------------------

TOKENS = [
    "$", "@", "#", "^", "_", "~", ".", "..", "*", "[", "]", "(", ")", "?", ",", ":", "0", "-1", "01", "1.5", "1.", "1e2", "1e-2", "1e400", "9" * 20, "-", "+", "'a'", '"b"', "'", '"', "'\\'", "'\\u12'", "'\\ud800'", "a", "é", "\ud800", "\x00", "true", "null", "undefined", "and", "or", "not", "in", "contains", "!", "=", "==", "!=", "<>", "<=", ">", "=~", "/a/", "/(/i", "/[/", "/a{99999999999999999999}/", "/(?u)a/a", "/", "&&", "||", "|", "&", "length(", "count(", "match(", "typeof(", "isinstance(", "nosuch(", "\\", " ", "\n", "\u2028", "😀",
]
AROUND = ["{}", "$.{}", "$..{}", "$[{}]", "$[{}", "$['a',{}]", "$[0:{}]", "$[?{}]", "$[?@.a{}]", "$[?@.a=={}]", "$[?!{}]", "$[?({})]", "$[?length({})==1]", "$[?typeof({})=='x']", "$[?@.a in [{}]]", "$[?@[{}]]", "$.a|{}"]
VALID = [
    "$.a.b[0]", "$['a',\"b\",1,*,::-1]", "$..a[*]", "$..[?@.a]", "$[1:2:3,-1:]", "$[?@.a==1 && @.b!='x' || !@.c]", "$[?length(@.a)>=1.5e2]", "$[?match(@.a,'x.*')]", "$[?(@.a<1) || !(@.b)]", "$[?count(@..*)==1][0]", "$[?@.a =~ /a.b/i]", "$[?@.a in ['x',1,null]]", "$[?typeof(@.a)=='x']", "$[?isinstance(@.a,\"str\")]", "$.a | $.b & ^.c", "$.~", "$[~]", "$[?#=='a' and _.x==true]", "$[?@.a contains @.b or not @.c]", "$[?@[?@.a>$.b]]", "a.b[c]", "^[?@.a<>undefined]", "$[?search(@['a'],'\\\\u0041\\'')]", "$ .a ['\\u00e9\\uD83D\\uDE00']",
]


def soups(n: int, around: Sequence[str] = AROUND, tokens: Sequence[str] = TOKENS) -> List[Tuple[str, List[str]]]:
    """Sequences of tokens, somewhere."""
    return [(f"{n} tokens in {a.replace('{}', '…')}", list(dict.fromkeys(a.replace("{}", "".join(x)) for x in combos(tokens, repeat=n)))) for a in around]


def mutated(valid: Sequence[str] = VALID, tokens: Sequence[str] = TOKENS, every: int = 1) -> List[Tuple[str, List[str]]]:
    """Valid queries cut off, with a character less, twice, exchanged, or a token more."""
    out = []
    for q in valid:
        texts = [q] + [q[:i] for i in range(len(q))] + [q[i:] for i in range(1, len(q))]
        texts += [q[:i] + q[i + 1 :] for i in range(len(q))] + [q[:i] + q[i] + q[i:] for i in range(len(q))]
        texts += [q[:i] + q[i + 1] + q[i] + q[i + 2 :] for i in range(len(q) - 1)]
        for i in range(len(q) + 1):
            texts += [q[:i] + t + q[i:] for t in tokens[i % every :: every]]
        out.append((f"{q}, changed", list(dict.fromkeys(texts))))
    return out


# --- operators, operands and functions -----------------------------------------------------------

OPERANDS = ["@", "@.a", "@.*", "@['a',0]", "@..a", "$", "$.b", "_", "_.x", "#", "1", "1.5", "1e400", "'x'", "null", "true", "undefined", "[1,'a',null]", "length(@.a)", "count(@.*)", "value(@.*)", "match(@.a,$.b)", "typeof(@.a)", "isinstance(@.*,'list')", "!@.a", "(@.a==1)", "/a/"]
OPERATORS = ["==", "!=", "<>", "<", "<=", ">", ">=", "in", "contains", "=~", "&&", "||"]
FUNCTIONS = ["length", "count", "value", "match", "search", "typeof", "type", "isinstance", "is"]
TYPE_NAMES = ["'undefined'", "'null'", "'str'", "'array'", "'object'", "'bool'", "'number'", "'int'", "'float'", "'nosuch'", "''", "1", "null", "@.a", "@.*", "#"]
SELECTORS = [".a", "['a']", "[0]", "[-1]", "[9007199254740991]", "[*]", ".*", "[1:]", "[::-1]", "[::0]", "[-1:0:-2]", "['a',0,*,1:]", "..a", "..*", "..[0]", "..[?@.a]", "[?@.a]", "[?@]", "[~]", ".~", "[?#]", "[?#=='a']", "[?#==0]"]


def operations(lefts: Sequence[str] = OPERANDS, rights: Sequence[str] = OPERANDS, operators: Sequence[str] = OPERATORS) -> List[Tuple[str, List[str]]]:
    return [(f"{a} {op} …", [f"$[?{a} {op} {b}]" for b in rights]) for a in lefts for op in operators]


def applications(operands: Sequence[str] = OPERANDS) -> List[Tuple[str, List[str]]]:
    out = []
    for f in FUNCTIONS:
        for a in operands:
            texts = [f"$[?{f}({a})]", f"$[?{f}({a})==1]", f"$[?!{f}({a})]", f"$[?{f}({a})<'x']"]
            for b in [*operands, *(TYPE_NAMES if f in ("isinstance", "is") else [])]:
                texts += [f"$[?{f}({a},{b})]", f"$[?{f}({a},{b})==1]"]
            out.append((f"{f}({a} …", texts))
    return out


def selections(n: int = 2) -> List[Tuple[str, List[str]]]:
    out = [("no selector", ["$", "^", "", "a", "^[0]", "^[?@.a]", "^.*"])]
    for k in range(1, n + 1):
        for first in SELECTORS:
            out.append((f"{k} selectors, first {first}", ["$" + first + "".join(x) for x in combos(SELECTORS, repeat=k - 1) if (first + "".join(x)).count("..") < 2]))
    return out


# --- pointers ------------------------------------------------------------------------------------

MODES = [(True, False), (False, False), (True, True), (False, True)]
PIECES = ["", "/", "a", "0", "-1", "-", "01", "9" * 17, "-" + "9" * 17, "9" * 4400, "#", "#a", "#0", "#-1", "~", "~0", "~1", "~2", "~a", "\\", "\\u", "\\u12", "\\u0061", "\\ud800", "\\ud83d\\ude00", "\\x", "\\xe9", "\\N", "\\N{x}", "\\U0011ffff", "\\777", "%", "%2", "%2F", "%zz", "%ff", "%ed%a0%80", "%5cu12", "é", "\ud800", "\x00", "\n", " ", "+1", "1.5", "１", "²", "😀"]


def flags(m: Tuple[bool, bool]) -> dict:
    return {"unicode_escape": m[0], "uri_decode": m[1]}


def pointers(name: str, texts: Callable[[], Sequence[Any]], modes: Sequence[Tuple[bool, bool]] = MODES, seconds: float = 60.0, doc_depth: int = 3) -> Result:
    """Texts, perhaps unknown ones, as pointers."""
    res = Result(name, "a pointer error, or a pointer whose resolution fails only with resolution errors, which can be printed")
    cls = repo("jsonpath.pointer.JSONPointer")
    wrong = family("JSONPointerError")
    unresolved = family("JSONPointerResolutionError")

    def one() -> None:
        m = modes[S.fork(0, len(modes))]
        every = texts()
        text = every[S.fork(1, len(every))]
        what = f"the pointer {text!r}" if isinstance(text, str) else "a pointer"
        ok, p = guarded(what, wrong, lambda: I.call(cls, [text], flags(m)))
        doc = json("doc", DOC)
        use = S.fork(2, 6 if ok else 1)
        if use == 0:
            if ok:
                guarded(f"resolving {what}", unresolved, lambda: call(p, "resolve", doc))
        elif use == 1:
            guarded(f"resolving {what} with a default", (), lambda: call(p, "resolve", doc, default=0))
        elif use == 2:
            guarded(f"`exists` of {what}", (), lambda: call(p, "exists", doc))
        elif use == 3:
            guarded(f"resolving {what} and its parent", unresolved, lambda: call(p, "resolve_parent", doc))
        elif use == 4:
            guarded(f"resolving {what} by function", wrong, lambda: I.call(repo("jsonpath.pointer.resolve"), [text, doc], flags(m)))
        else:
            guarded(f"printing {what}", (), lambda: I.call(I.pyclass(str), [p]))

    return run_partitions(res, one, 1000000, seconds, doc_depth)


NO_SLASH = dfa.conj(dfa.neg(dfa.fullmatch(r"(?s:.*/.*)")), NO_BACKSLASH)


def unknown_pointers(n: int, seconds: float = 60.0, doc_depth: int = 4) -> Result:
    """Any text with so many slashes."""

    def texts() -> List[Any]:
        text: Any = string("text0", NO_SLASH)
        for i in range(n):
            text = pylib.cat(pylib.cat(text, "/"), string(f"text{i + 1}", NO_SLASH))
        return [text]

    return pointers(f"any text with {n} slashes", texts, [(True, False), (False, False)], seconds, doc_depth)


def pointer_texts(n: int) -> List[str]:
    out = ["".join(x) for x in combos(PIECES, repeat=n)]
    out += ["/" + t for t in out]
    if n > 1:
        out += ["/" + "/".join(x) for x in combos(PIECES, repeat=n)]
    return list(dict.fromkeys(out))


# --- relative pointers ---------------------------------------------------------------------------

ORIGINS = ["", "0", "1", "2", "3", "01", "00", "-1", "+1", "9" * 20, "9" * 4400, "a", "#", "/", " 1", "1.5", "１"]
SHIFTS = ["", "+1", "-1", "+0", "-0", "+01", "+", "-", "+-1", "+" + "9" * 4400, "-" + "9" * 20, "~"]
SUFFIXES = ["", "#", "/", "/a", "/a/0", "##", "#/a", "a", " ", " #", "# ", "/\\u12", "/\\ud800", "/%ff", "/" + "9" * 17, "\n", "//", "/-", "0", "/~2"]
BASES = ["", "/", "/a", "/0", "/a/1", "/1/a", "/-1", "/a/-1", "/-", "/01", "/#0", "/~", "/9007199254740991", "/" + "9" * 17, "/" + "9" * 4400, "a", "/\\u12", "/\\ud800"]


def relatives(origins: Sequence[str] = ORIGINS, modes: Sequence[Tuple[bool, bool]] = MODES, bases: Sequence[str] = BASES, seconds: float = 60.0) -> List[Result]:
    """Texts as relative pointers, applied to others."""
    out = []
    cls = repo("jsonpath.pointer.RelativeJSONPointer")
    pcls = repo("jsonpath.pointer.JSONPointer")
    wrong = family("JSONPointerError", "RelativeJSONPointerError")

    for o in origins:
        res = Result(f"relative pointers {o[:20]!r}…", "a pointer error, or a relative pointer that applies, or fails with a pointer error")

        def one(o: str = o) -> None:
            m = modes[S.fork(0, len(modes))]
            rel = o + SHIFTS[S.fork(1, len(SHIFTS))] + SUFFIXES[S.fork(2, len(SUFFIXES))]
            what = f"the relative pointer {rel[:40]!r}"
            ok, r = guarded(what, wrong, lambda: I.call(cls, [rel], flags(m)))
            if not ok:
                return
            guarded(f"printing {what}", (), lambda: I.call(I.pyclass(str), [r]))
            for base in bases:
                at = f"{what} from {base[:40]!r}"
                guarded(at, wrong, lambda: call(r, "to", base, **flags(m)))
                ok, p = guarded(f"the pointer {base!r}", wrong, lambda: I.call(pcls, [base], flags(m)))
                if ok:
                    guarded(at, wrong, lambda: call(r, "to", p))
                    guarded(f"{base[:40]!r} to {what}", wrong, lambda: call(p, "to", rel, **flags(m)))

        out.append(run_partitions(res, one, 100000, seconds))
    return out


def used(p: Any) -> None:
    """What's done with a pointer that isn't made from a text."""
    doc = json("doc", DOC)
    use = S.fork(5, 4)
    if use == 0:
        guarded("resolving the pointer", family("JSONPointerResolutionError"), lambda: call(p, "resolve", doc))
    elif use == 1:
        guarded("`exists` of the pointer", (), lambda: call(p, "exists", doc))
    elif use == 2:
        guarded("resolving the pointer and its parent", family("JSONPointerResolutionError"), lambda: call(p, "resolve_parent", doc))
    else:
        guarded("printing the pointer", (), lambda: I.call(I.pyclass(str), [p]))


def made(seconds: float = 60.0) -> List[Callable[[], Result]]:
    """Pointers made from parts, from other pointers and from matches' locations."""
    cls = repo("jsonpath.pointer.JSONPointer")
    wrong = family("JSONPointerError")

    def ptr(n: int) -> Any:
        from . import relative

        return relative.parsed(relative.tokens(n, NO_BACKSLASH))

    def parts(*kinds: str) -> Any:
        xs = [integer(f"i{i}", -(2**53) + 1, 2**53 - 1) if k == "int" else string(f"t{i}", NO_BACKSLASH) for i, k in enumerate(kinds)]
        return call(cls, "from_parts", I.new_list([Item(x) for x in xs]))

    ways: List[Tuple[str, Callable[[], Any]]] = [
        *((f"from parts {k}", lambda k=k: parts(*k)) for n in (1, 2) for k in combos(("int", "str"), repeat=n)),
        ("the parent of a pointer", lambda: call(ptr(2), "parent")),
        ("a pointer joined with text", lambda: call(ptr(1), "join", string("more", NO_SLASH))),
        ("a pointer / text", lambda: call(ptr(1), "__truediv__", string("more", NO_SLASH))),
    ]

    def mk(name: str, how: Callable[[], Any]) -> Result:
        def one() -> None:
            ok, p = guarded(name, wrong, how)
            if ok:
                used(p)

        return run_partitions(Result(f"using {name}", "only pointer errors"), one, 100000, seconds)

    return [lambda n=n, h=h: mk(n, h) for n, h in ways]


def unknown_relatives(n: int, seconds: float = 60.0, use: bool = True) -> List[Result]:
    """Relative pointers from anywhere: unknown tokens, steps and offsets."""
    from . import relative

    wrong = family("JSONPointerError", "RelativeJSONPointerError")
    out = []
    for off in relative.OFFSETS:
        for suffix in ("#", 1):
            res = Result(f"any steps, offset {off}, suffix {suffix}, from {n} tokens", "a pointer, or a pointer error")

            def one(off: str = off, suffix: Any = suffix) -> None:
                cls = repo("jsonpath.pointer.RelativeJSONPointer")
                x = (integer("steps", 0), {"none": lambda: 0, "positive": lambda: integer("offset", 1), "negative": lambda: integer("offset", hi=-1)}[off](), "#" if suffix == "#" else relative.tokens(suffix, NO_BACKSLASH, "s"))
                ok, p = guarded("a pointer", wrong, lambda: relative.parsed(relative.tokens(n, NO_BACKSLASH)))
                if not ok:
                    return
                ok, r = guarded("a relative pointer", wrong, lambda: I.call(cls, [I.call(spec("relative.spelled"), list(x))]))
                if ok:
                    ok, q = guarded("applying a relative pointer", wrong, lambda: call(p, "to", r))
                    if ok and use:
                        used(q)

            out.append(run_partitions(res, one, 100000, seconds))
    return out


# --- patches -------------------------------------------------------------------------------------

NAMES = ["add", "addne", "addap", "remove", "replace", "move", "copy", "test"]
MEMBERS = {"remove": ("path",), "move": ("from", "path"), "copy": ("from", "path")}


def _apply(ops: Any, doc: Any, m: Tuple[bool, bool], what: str) -> None:
    failed = family("JSONPatchError")
    ok, p = guarded(f"building {what}", failed, lambda: I.call(repo("jsonpath.patch.JSONPatch"), [ops], flags(m)))
    if ok:
        guarded(f"applying {what}", failed, lambda: call(p, "apply", doc))


def any_patch(name: str, ops: Callable[[], Any], modes: Sequence[Tuple[bool, bool]] = MODES[:1], seconds: float = 60.0, doc_depth: int = 4) -> Result:
    res = Result(name, "building and applying a patch fails only with patch errors, which can be printed")

    def one() -> None:
        m = modes[S.fork(0, len(modes))]
        _apply(ops(), json("doc", DOC), m, "a patch")

    return run_partitions(res, one, 100000, seconds, doc_depth)


def from_py(v: Any) -> Any:
    return pylib.from_py(v)


def listed(*ops: Any) -> Any:
    return I.new_list([Item(o) for o in ops])


def record(**members: Any) -> Any:
    d = pylib.from_py({})
    for k, v in members.items():
        pylib.setitem(d, k.rstrip("_"), v)
    return d


def any_pointer(n: int, name: str, esc: bool = True) -> Any:
    """Any text with so many slashes, without backslashes where these are decoded."""
    lang = NO_SLASH if esc else dfa.neg(dfa.fullmatch(r"(?s:.*/.*)"))
    text: Any = string(f"{name}0", lang)
    for i in range(n):
        text = pylib.cat(pylib.cat(text, "/"), string(f"{name}{i + 1}", lang))
    return text


def operation(op: Any, path: Any, from_: Any, at: str = "") -> Any:
    """An operation; each member may be absent, no text, or a text with so many slashes."""
    d = record(op=op)
    for key, n in (("path", path), ("from", from_)):
        if n == "other":
            pylib.setitem(d, key, json(key + at, DOC))
        elif isinstance(n, int):
            pylib.setitem(d, key, any_pointer(n, key + at))
        elif n is not None:
            pylib.setitem(d, key, n)
    return d


def patches(seconds: float = 60.0, deep: int = 2) -> List[Callable[[], Result]]:
    """Patches of one operation."""
    out: List[Callable[[], Result]] = []

    def add(name: str, ops: Callable[[], Any], **k: Any) -> None:
        out.append(lambda: any_patch(name, ops, seconds=seconds, **k))

    add("what isn't a list", lambda: json("patch", DOC - {LIST}))
    add("a list of what aren't objects", lambda: listed(json("op", JSON - {DICT})))
    add("a list of what aren't objects, after one", lambda: listed(operation("remove", 1, None), json("op", JSON - {DICT})))
    add("an object of unknown members", lambda: listed(record(path="/a", op=json("op", DOC))))
    add("an unknown operation", lambda: listed(record(path="/a", op=string("op", dfa.neg(dfa.alt(*[dfa.lit(x) for x in NAMES]))))))
    add("an operation without members", lambda: listed(record()))
    for name in NAMES:
        two = name in ("move", "copy")
        for path in (None, "other", *range(deep + 1)):
            for from_ in (None, "other", *range(deep + 1)) if two else (None,):
                for value in (True, False) if name not in MEMBERS else (False,):
                    if two and isinstance(path, int) and isinstance(from_, int) and path + from_ > deep + 1:
                        continue

                    def ops(name: str = name, path: Any = path, from_: Any = from_, value: bool = value) -> Any:
                        d = operation(name, path, from_)
                        if value:
                            pylib.setitem(d, "value", json("value"))
                        return listed(d)

                    add(f"{name}: path {path}{f', from {from_}' if two else ''}, {'a' if value else 'no'} value", ops)
    return out


def patches_in_turn(first: Sequence[str] = NAMES, then: Sequence[str] = NAMES, n: int = 1, seconds: float = 60.0) -> List[Callable[[], Result]]:
    out: List[Callable[[], Result]] = []
    for a, b in combos(first, then):

        def ops(a: str = a, b: str = b) -> Any:
            all_ = []
            for i, name in enumerate((a, b)):
                d = operation(name, n, n if name in ("move", "copy") else None, str(i))
                if name not in MEMBERS:
                    pylib.setitem(d, "value", json(f"value{i}"))
                all_.append(d)
            return listed(*all_)

        out.append(lambda ops=ops, a=a, b=b: any_patch(f"{a}, then {b}, {n} slashes each", ops, seconds=seconds))
    return out


def odd_patches(seconds: float = 60.0) -> List[Callable[[], Result]]:
    """Operations at odd pointers."""
    texts = list(dict.fromkeys(["/" + t for t in PIECES] + PIECES + ["/a/" + t for t in PIECES]))
    out = []
    for name in NAMES:

        def ops(name: str = name) -> Any:
            t = texts[S.fork(10, len(texts))]
            if name in ("move", "copy"):
                k = S.fork(11, 2)
                return listed(record(op=name, path=(t, "/a")[k], from_=("/a", t)[k]))
            return listed(record(op=name, path=t, value=1))

        out.append(lambda ops=ops, name=name: any_patch(f"{name} at odd pointers", ops, MODES, seconds))
    return out


AT = ["", "/a", "/0", "/-", "/a/0"]


def patches_at(pairs: Sequence[Tuple[str, str]], seconds: float = 60.0) -> List[Callable[[], Result]]:
    """Two operations, at given pointers, of an unknown document."""
    out = []
    for a, b in pairs:

        def ops(a: str = a, b: str = b) -> Any:
            all_ = []
            for i, name in enumerate((a, b)):
                d = record(op=name, path=AT[S.fork(20 + i, len(AT))])
                if name not in MEMBERS:
                    pylib.setitem(d, "value", json(f"value{i}"))
                if name in ("move", "copy"):
                    pylib.setitem(d, "from", AT[S.fork(30 + i, len(AT))])
                all_.append(d)
            return listed(*all_)

        out.append(lambda ops=ops, a=a, b=b: any_patch(f"{a}, then {b}, at given pointers", ops, seconds=seconds, doc_depth=3))
    return out
