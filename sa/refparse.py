"""A small reference parser and printer for queries, used to set up scenarios.

Syntax trees are tuples:

query     (root, segments)              root: "$" "@" "^" "_"
segment   ("child", selectors) | ("desc", selectors)
selector  ("name", s) ("index", i) ("slice", a, b, c) ("wild",) ("keys",)
          ("filter", expr)
expr      ("and", l, r) ("or", l, r) ("not", e) ("test", query)
          ("cmp", op, l, r) ("fn", name, args)
operand   ("lit", value) ("query", query) ("fn", name, args) ("key",)
          ("undefined",) ("regex", pattern, flags) ("list", items)
compound  ("compound", first, ((op, query), ...))
"""

from __future__ import annotations

import json
import re
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

_TOK = re.compile(
    r"""\s*(?:
    (?P<str>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')
  | (?P<regex>/(?:[^/\\]|\\.)+/[aims]*)
  | (?P<num>-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)
  | (?P<word>[a-zA-Z][a-zA-Z0-9_]*)
  | (?P<op>\.\.|&&|\|\||==|!=|<>|<=|>=|=~|[$@^_~\#\[\]().,:?*!<>|&])
    )""",
    re.X,
)


class Parser:
    def __init__(self, text: str):
        self.toks: List[Tuple[str, str]] = []
        i = 0
        while i < len(text):
            m = _TOK.match(text, i)
            if not m:
                if not text[i:].strip():
                    break
                raise ValueError(text[i:])
            self.toks.append((m.lastgroup or "", m.group(m.lastgroup or 0)))
            i = m.end()
        self.toks.append(("end", ""))
        self.i = 0

    def peek(self) -> str:
        return self.toks[self.i][1]

    def kind(self) -> str:
        return self.toks[self.i][0]

    def take(self, want: Optional[str] = None) -> str:
        k, v = self.toks[self.i]
        if want is not None and v != want:
            raise ValueError(f"{v!r}, not {want!r}")
        self.i += 1
        return v

    def query(self) -> Any:
        root = self.take()
        assert root in "$@^_", root
        segs = []
        while self.peek() in (".", "..", "["):
            if self.peek() == "..":
                self.take()
                segs.append(("desc", self.selectors() if self.peek() == "[" else (self.short(),)))
            elif self.peek() == ".":
                self.take()
                segs.append(("child", (self.short(),)))
            else:
                segs.append(("child", self.selectors()))
        return (root, tuple(segs))

    def short(self) -> Any:
        t = self.take()
        if t == "*":
            return ("wild",)
        if t == "~":
            return ("keys",)
        return ("name", t)

    def selectors(self) -> Any:
        self.take("[")
        out = []
        while True:
            out.append(self.selector())
            if self.peek() == ",":
                self.take()
                continue
            self.take("]")
            return tuple(out)

    def selector(self) -> Any:
        k, v = self.toks[self.i]
        if k == "str":
            self.take()
            return ("name", unquote(v))
        if v == "*":
            self.take()
            return ("wild",)
        if v == "~":
            self.take()
            return ("keys",)
        if v == "?":
            self.take()
            return ("filter", self.expr())
        parts: List[Any] = [None]
        if k == "num":
            parts[0] = int(self.take())
        if self.peek() != ":":
            return ("index", parts[0])
        while self.peek() == ":":
            self.take()
            parts.append(int(self.take()) if self.kind() == "num" else None)
        return ("slice", *(parts + [None, None])[:3])

    def expr(self) -> Any:
        e = self.conj()
        while self.peek() in ("||", "or"):
            self.take()
            e = ("or", e, self.conj())
        return e

    def conj(self) -> Any:
        e = self.basic()
        while self.peek() in ("&&", "and"):
            self.take()
            e = ("and", e, self.basic())
        return e

    def basic(self) -> Any:
        if self.peek() in ("!", "not"):
            self.take()
            return ("not", self.basic())
        if self.peek() == "(":
            self.take()
            e = self.expr()
            self.take(")")
            return e
        left = self.operand()
        ops = ("==", "!=", "<>", "<", ">", "<=", ">=", "in", "contains", "=~")
        if self.peek() in ops:
            op = self.take()
            return ("cmp", "!=" if op == "<>" else op, left, self.operand())
        if left[0] == "query":
            return ("test", left[1])
        return left

    def operand(self) -> Any:
        k, v = self.toks[self.i]
        if k == "str":
            self.take()
            return ("lit", unquote(v))
        if k == "num":
            self.take()
            return ("lit", int(v) if re.fullmatch(r"-?\d+", v) else float(v))
        if k == "regex":
            self.take()
            body, _, flags = v[1:].rpartition("/")
            return ("regex", body, flags)
        if v == "#":
            self.take()
            return ("key",)
        if v in ("undefined", "missing"):
            self.take()
            return ("undefined",)
        if v == "[":
            self.take()
            items = []
            while self.peek() != "]":
                items.append(self.operand())
                if self.peek() == ",":
                    self.take()
            self.take()
            return ("list", tuple(items))
        if k == "word":
            self.take()
            if self.peek() == "(":
                self.take()
                args = []
                while self.peek() != ")":
                    args.append(self.operand())
                    if self.peek() == ",":
                        self.take()
                self.take()
                return ("fn", v, tuple(args))
            lit: Dict[str, Any] = {"true": True, "false": False, "null": None}
            low = v.lower()
            low = "null" if low in ("nil", "none") else low
            return ("lit", lit[low])
        return ("query", self.query())

    def compound(self) -> Any:
        first = self.query()
        rest = []
        while self.peek() in ("|", "&"):
            op = self.take()
            rest.append((op, self.query()))
        if self.kind() != "end":
            raise ValueError(self.peek())
        return ("compound", first, tuple(rest)) if rest else first


def unquote(v: str) -> str:
    body = v[1:-1]
    if v[0] == "'":
        body = body.replace('"', '\\"').replace("\\'", "'")
    return json.loads(f'"{body}"')


def parse(text: str) -> Any:
    return Parser(text).compound()


# --- printing -----------------------------------------------------------------------------


class Style:
    """How a query is spelled."""

    tokens = {"$": "$", "@": "@", "^": "^", "_": "_", "~": "~", "#": "#", "|": "|", "&": "&"}
    quote = "'"
    dots = False
    space = ""
    words = False

    def __init__(self, **kw: Any):
        for k, v in kw.items():
            setattr(self, k, v)

    def string(self, s: str) -> str:
        body = json.dumps(s, ensure_ascii=False)[1:-1]
        if self.quote == "'":
            body = body.replace('\\"', '"').replace("'", "\\'")
            return f"'{body}'"
        return f'"{body}"'

    def show(self, q: Any) -> str:
        if q[0] == "compound":
            out = self.query(q[1])
            for op, r in q[2]:
                out += f" {self.tokens[op]} {self.query(r)}"
            return out
        return self.query(q)

    def query(self, q: Any) -> str:
        return self.tokens[q[0]] + "".join(self.segment(s) for s in q[1])

    def segment(self, seg: Any) -> str:
        kind, sels = seg
        if self.dots and len(sels) == 1:
            s = sels[0]
            short = None
            if s[0] == "name" and re.fullmatch(r"[a-zA-Z][a-zA-Z0-9]*", s[1]):
                short = s[1]
            elif s[0] == "wild":
                short = "*"
            if short:
                return (".." if kind == "desc" else ".") + short
        sp = self.space
        body = f"{sp},{sp}".join(self.selector(s) for s in sels)
        return (".." if kind == "desc" else "") + f"[{sp}{body}{sp}]"

    def selector(self, s: Any) -> str:
        sp = self.space
        k = s[0]
        if k == "name":
            return self.string(s[1])
        if k == "index":
            return str(s[1])
        if k == "slice":
            a, b, c = ("" if x is None else str(x) for x in s[1:])
            return f"{a}{sp}:{sp}{b}" + (f"{sp}:{sp}{c}" if c != "" else "")
        if k == "wild":
            return "*"
        if k == "keys":
            return self.tokens["~"]
        return "?" + sp + self.expr(s[1], 0)

    def expr(self, e: Any, prec: int) -> str:
        sp = self.space or " "
        k = e[0]
        if k == "or":
            s = f"{self.expr(e[1], 1)}{sp}{'or' if self.words else '||'}{sp}{self.expr(e[2], 2)}"
            return f"({s})" if prec > 1 else s
        if k == "and":
            s = f"{self.expr(e[1], 3)}{sp}{'and' if self.words else '&&'}{sp}{self.expr(e[2], 4)}"
            return f"({s})" if prec > 3 else s
        if k == "not":
            inner = self.expr(e[1], 6)
            return ("not " if self.words else "!") + inner
        if k == "cmp":
            s = f"{self.operand(e[2])}{sp}{e[1]}{sp}{self.operand(e[3])}"
            return f"({s})" if prec >= 6 else s
        if k == "test":
            return self.query(e[1])
        return self.operand(e)

    def operand(self, o: Any) -> str:
        k = o[0]
        if k == "lit":
            v = o[1]
            return self.string(v) if isinstance(v, str) else json.dumps(v)
        if k == "query":
            return self.query(o[1])
        if k == "fn":
            return f"{o[1]}({self.space}{', '.join(self.operand(a) for a in o[2])}{self.space})"
        if k == "key":
            return self.tokens["#"]
        if k == "undefined":
            return "undefined"
        if k == "regex":
            return f"/{o[1]}/{o[2]}"
        if k == "list":
            return "[" + ", ".join(self.operand(a) for a in o[1]) + "]"
        raise ValueError(k)
