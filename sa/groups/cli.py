"""The command line: what a run of the program writes, against what the library returns."""

from __future__ import annotations

from itertools import product as combos
from typing import Any
from typing import Dict
from typing import List
from typing import Sequence
from typing import Tuple

from .. import dfa
from .. import interp as I
from .. import pylib
from ..check import Result
from ..check import edited
from ..check import run_partitions
from ..cmp import Cmp
from ..cmp import outcome
from ..scen import repo
from ..scen import spec
from ..scen import string
from ..state import BOOL
from ..state import Infeasible
from ..state import sym
from ..values import Builtin
from ..values import DictV
from ..values import Item
from ..values import S
from ..values import Sym

# Stands for bytes that are no text.
UNDECODABLE = "\udcff"
ONE_LINE = dfa.seq(dfa.plus(dfa.char(dfa.cneg(dfa.cs((10, 10), (13, 13))))), dfa.opt(dfa.lit("\n")))


def one_line(a: List[Any], k: Any) -> bool:
    t = a[0]
    if isinstance(t, str):
        return dfa.contains(ONE_LINE, t)
    return S.in_lang(t.term, ONE_LINE)


def layout(a: List[Any], k: Any) -> str:
    """Whether the JSON text is laid out as asked, and written as JSON."""
    text, pretty = a
    if not isinstance(text, Sym) or text.term[:2] != ("fn", "json.dumps"):
        return ""
    kw = dict(text.term[4])
    indent = kw.pop("indent", None)
    if kw.pop("ensure_ascii", True) is not True:
        return ", in a form that not every stream can hold"
    seps = kw.pop("separators", None)
    if seps is not None and seps not in ((",", ":"), (", ", ": "), (",", ": ")):
        return ", with odd separators"
    for harmless in ("check_circular", "cls", "default", "skipkeys"):
        if kw.get(harmless) in (None, True, False):
            kw.pop(harmless, None)
    if kw.pop("sort_keys", False):
        return ", with members in another order"
    if kw.pop("allow_nan", True) is not True:
        return ", unless there is a number that isn't finite"
    if kw:
        return I.undecided(f"json.dumps with {sorted(kw)}")
    if bool(pretty) != (indent is not None):
        return ", laid out otherwise"
    return ""


def world() -> None:
    pylib.WORLD.update(
        {"open": spec("cli.opened"), "print": spec("cli.printed"), "sys": spec("cli.sys_attr")}
    )


def program(way: str) -> Any:
    if way == "module":
        m = repo("jsonpath.cli")
        path = I.module_path("jsonpath.__main__")

        def run(a: List[Any], k: Any) -> Any:
            import ast

            with open(path, encoding="utf-8") as fd:
                tree = ast.parse(fd.read(), path)
            mod = I.ModuleV("jsonpath.__main__", path, tree)
            mod.f["__name__"] = "__main__"
            fr = I.Frame(None, mod)
            fr.f = mod.f
            I.exec_body(tree.body, fr)

        _ = m
        return Builtin("python -m jsonpath", run)
    main = repo("jsonpath.cli.main")
    # The installed script passes what main() returns to sys.exit().
    return Builtin("json", lambda a, k: I.call(main, []))


def stream(text: Any, broken: Any = False, binary: bool = False, name: str = "f") -> Any:
    return I.call(spec("cli.Stream"), [text, broken, binary, True, name])


def strings(xs: Sequence[Any]) -> Any:
    return I.new_list([Item(x) for x in xs])


def pick(*choices: Any) -> Any:
    return choices[S.fork(0, len(choices))]


Case = Tuple[str, List[Any]]


def runs(
    name: str,
    command: str,
    texts: Sequence[str],
    given: Sequence[str] = ("inline",),
    doc: Sequence[str] = ("file",),
    out: Sequence[str] = ("stdout",),
    flags: Sequence[Tuple[str, ...]] = ((),),
    own: Sequence[Tuple[str, ...]] = ((),),
    way: Sequence[str] = ("script",),
    seconds: float = 60.0,
    doc_depth: int = 2,
    document: Any = None,
) -> Result:
    """Runs of a sub-command, for an unknown document.

    _texts_: queries, pointers or patch files; _given_: inline (short or long options) or in
    a file; _doc_, _out_: where the document comes from and the result goes to; _flags_ and
    _own_: options before and after the sub-command.
    """
    res = Result(name, "status and output against what the library returns")
    library = {"path": "found", "pointer": "resolved", "patch": "patched"}[command]
    short = {"path": "-q", "pointer": "-p"}.get(command, "")
    long = {"path": "--query", "pointer": "--pointer"}.get(command, "")
    file = {"path": "--path-file", "pointer": "--pointer-file"}.get(command, "")

    def one() -> None:
        text = pick(*texts)
        g, d, o, fs, os_, w = pick(*given), pick(*doc), pick(*out), pick(*flags), pick(*own), pick(*way)
        content = document if document is not None else string("text")
        broken = Sym(sym("broken", frozenset([BOOL])))
        files: Dict[str, Any] = {"doc.json": stream(content, broken, True, "doc.json"), "old.json": stream("[]", False, False, "old.json")}
        argv: List[Any] = ["json", *fs, command]
        if command == "patch":
            files["patch.json"] = stream(text, text == UNDECODABLE, True, "patch.json")
            argv.append("patch.json")
        elif g == "inline":
            argv += [short, text]
        elif g == "long":
            argv += [f"{long}={text}"]
        else:
            files["text"] = stream(text if g == "file" else text + "\n", False, False, "text")
            argv += ["-r" if g == "file" else file, "text"]
        argv += os_
        stdin = stream("", False, False, "<stdin>")
        if d != "file" and d != "long":
            stdin = stream(content, broken, False, "<stdin>")
            if d == "dash":
                argv += ["-f", "-"]
        else:
            argv += ["-f" if d == "file" else "--file", "doc.json"]
        target = None
        if o == "dash":
            argv += ["-o", "-"]
        elif o != "stdout":
            target = "old.json" if o == "old" else "new.json"
            argv += ["-o" if o == "new" else "--output", target]
        # A document's text that's a document at all, or not.
        S.decide(("validjson", content.term)) if isinstance(content, Sym) else None
        a = outcome(
            lambda: I.call(
                spec("cli.run"),
                [program(w), strings(argv), stdin, DictV(I.DICTC, tuple(Item((n, f)) for n, f in files.items())), target, Builtin("one_line", one_line), Builtin("layout", layout)],
            )
        )
        lib_doc = stream(content, broken, d != "stdin", "doc")
        expr = text if command != "patch" else I.call(spec("cli.Bytes"), [text, text == UNDECODABLE])
        b = outcome(lambda: I.call(spec(f"cli.{library}"), [expr, strings([*fs, *os_]), lib_doc]))
        edited(Cmp(identity=False), a, b, what=" ".join(map(str, argv)) + (" < doc.json" if d in ("stdin", "dash") else ""))

    world()
    try:
        return run_partitions(res, one, 100000, seconds, doc_depth)
    finally:
        pylib.WORLD.clear()


FLAGS: Sequence[Tuple[str, ...]] = ((), ("--pretty",), ("--debug",), ("--no-unicode-escape",), ("--pretty", "--no-unicode-escape"), ("--debug", "--pretty"))
ALL_FLAGS: Sequence[Tuple[str, ...]] = [tuple(f for f, on in zip(("--pretty", "--debug", "--no-unicode-escape"), bits) if on) for bits in combos((0, 1), repeat=3)]
PATH_FLAGS: Sequence[Tuple[str, ...]] = ((), ("--no-type-checks",))
URI_FLAGS: Sequence[Tuple[str, ...]] = ((), ("-u",), ("--uri-decode",))
QUERIES = ["$", "$.a", "$..[?@.b>1]", "$.a[0] | $.b", "$['\\u0061']", "$[?match(@.a, 'x\\\\.y')]", "$.*", "$[?length(@.*)==1]", "$[?match(@.a,'b')==true]", "$.nosuch", ""]
BAD_QUERIES = ["$[", "$.a[?", "$[?nosuch(@)]", "$[?count(1)==1]", "$[?count()]", "$[99999999999999999999]", "$[?@.a =~ /(/]", "$['\\u12']", "$[?@.a == 'x\ny'", "$['a\r\nb", "$.a\n..", "$[?@.a == 'b\u2028' z]", "1a", "$[?1]", "$[?nosuch\n(@)]", "$[1:99999999999999999999]"]
POINTERS = ["", "/a", "/a/0", "/a~1b/~0", "/\\u0061", "/%61/b", "/0/-", "/a/-1", "/a\nb", "/a/#0", "/%5Cu0061"]
BAD_POINTERS = ["a", "a/b\nc", "/99999999999999999999", "/\\u12", "/a\n/99999999999999999999", "/\\x", "\\u0061"]
PATCHES = [
    "[]",
    '[{"op": "add", "path": "/a", "value": [1, null]}]',
    '[{"op": "remove", "path": "/a/0"}]',
    '[{"op": "test", "path": "/a", "value": "x"}, {"op": "replace", "path": "/b", "value": false}]',
    '[{"op": "move", "from": "/a", "path": "/b"}]',
    '[{"op": "copy", "from": "/a\\\\u0062", "path": "/c"}]',
    '[{"op": "replace", "path": "/%61", "value": {}}]',
    '[{"op": "replace", "path": "", "value": 1.5}]',
    '[{"op": "test", "path": "/a\\nb", "value": 1}]',
    '[{"op": "test", "path": "", "value": {}}]',
]
BAD_PATCHES = [UNDECODABLE, "", "{", "null", "{}", '"x"', '[1]', '[{}]', '[{"op": "nosuch"}]', '[{"op": "no\\nsuch", "path": ""}]', '[{"op": "add", "path": "/a"}]', '[{"op": "add", "path": "a", "value": 1}]', '[{"op": "add", "path": 1, "value": 1}]', '[{"op": "remove", "path": "/a\\n/99999999999999999999"}]', "[\n1,\n}"]
WAYS = ("script", "module")
