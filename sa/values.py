"""Abstract values."""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

from .state import MISSING
from .state import State
from .state import Undecided

S = State()


def reset_state() -> State:
    """Forget all facts (the analysed program's heap is kept)."""
    S.layers = []
    S.effects = []
    S.steps = 0
    S.rec_ids = {}
    S.next_rec = 0
    S.epoch = 0
    return S


class Obj:
    """Something with identity and mutable fields."""

    __slots__ = ("f", "stamp")

    def __init__(self) -> None:
        self.f: Dict[Any, Any] = {}
        self.stamp = S.heap.new_stamp()


def getf(o: Obj, field: Any, default: Any = MISSING) -> Any:
    h = S.heap
    if h.trackers:
        for t in h.trackers:
            t.read(o, field)
    v = o.f.get(field, default)
    if type(v) is Later:
        v = v.force()
        if v is MISSING:
            v = default
    return v


def setf(o: Obj, field: Any, value: Any) -> None:
    h = S.heap
    h.log.append((o, field, o.f.get(field, MISSING)))
    if h.trackers:
        for t in h.trackers:
            t.write(o, field)
    o.f[field] = value


def quietf(o: Obj, field: Any, value: Any) -> None:
    """Set a field to what it has been all along."""
    h = S.heap
    h.log.append((o, field, o.f.get(field, MISSING)))
    o.f[field] = value


def delf(o: Obj, field: Any) -> None:
    h = S.heap
    h.log.append((o, field, o.f.get(field, MISSING)))
    for t in h.trackers:
        t.write(o, field)
    del o.f[field]


def appendf(o: Obj, field: Any, segs: List[Any]) -> None:
    """Append to a sequence of segments without observing it."""
    h = S.heap
    old = o.f.get(field, ())
    h.log.append((o, field, old))
    for t in h.trackers:
        t.append(o, field)
    o.f[field] = tuple(old) + tuple(segs)


class Tracker:
    """What a loop body reads and writes of what existed before the loop."""

    def __init__(self) -> None:
        self.stamp = S.heap.stamp
        self.carried: Dict[Tuple[int, Any], Obj] = {}
        self.objs: Dict[Tuple[int, Any], Obj] = {}
        self.written: Dict[Tuple[int, Any], str] = {}
        self.read_first: Dict[Tuple[int, Any], Obj] = {}
        self.off = False
        self.counters: Dict[Any, Any] = {}
        self.memos: Any = set()

    def begin(self) -> None:
        self.written = {}

    def read(self, o: Obj, field: Any) -> None:
        if o.stamp <= self.stamp and not self.off:
            k = (id(o), field)
            if self.written.get(k) != "set":
                self.read_first[k] = o

    def write(self, o: Obj, field: Any) -> None:
        if o.stamp <= self.stamp and not self.off:
            k = (id(o), field)
            self.written[k] = "set"
            self.objs[k] = o

    def append(self, o: Obj, field: Any) -> None:
        if o.stamp <= self.stamp and not self.off:
            k = (id(o), field)
            self.written.setdefault(k, "append")
            self.objs[k] = o


# --- segments -----------------------------------------------------------------------


class Item:
    __slots__ = ("v",)

    def __init__(self, v: Any):
        self.v = v

    def __repr__(self) -> str:
        return f"Item({self.v!r})"


class Each:
    """For every element of _dom_, in order: the segments of the case that holds."""

    __slots__ = ("dom", "var", "cases")

    def __init__(self, dom: Any, var: Any, cases: Tuple[Tuple[Tuple, Tuple], ...]):
        self.dom = dom
        self.var = var
        self.cases = cases

    def __repr__(self) -> str:
        return f"Each({self.dom!r}, {self.var!r}, {self.cases!r})"


class RaiseSeg:
    __slots__ = ("exc",)

    def __init__(self, exc: Any):
        self.exc = exc

    def __repr__(self) -> str:
        return f"RaiseSeg({self.exc!r})"


# --- values -------------------------------------------------------------------------


class Sym:
    __slots__ = ("term",)

    def __init__(self, term: Any):
        self.term = term

    def __repr__(self) -> str:
        return f"<{show(self.term)}>"


def mk(term: Any) -> Any:
    """A value for a term (constants stand for themselves)."""
    return Sym(term) if isinstance(term, tuple) else term


def show(t: Any) -> str:
    if not isinstance(t, tuple) or not t:
        return repr(t) if not isinstance(t, frozenset) else "{..}"
    op = t[0]
    if op == "sym":
        return t[1]
    if op == "var":
        return f"i{t[1]}"
    if op == "child":
        return f"{show(t[1])}[{show(t[2])}]"
    if op == "key":
        return f"key({show(t[1])}, {show(t[2])})"
    if op == "lin":
        return "(" + " + ".join([f"{k}*{show(x)}" for x, k in t[2]] + [str(t[1])]) + ")"
    if op == "cat":
        return " ++ ".join(show(x) for x in t[1:])
    if op == "fn":
        return f"{t[1]}({', '.join(show(x) for x in t[3:])})"
    if op == "bv":
        return f"j{t[1]}"
    if op == "kind" and len(t) == 3:
        return f"{show(t[1])} is {'/'.join(sorted(t[2]))}"
    if op in ("le0", "ne0") and len(t) == 2:
        return f"{show(t[1])} {'<=' if op == 'le0' else '!='} 0"
    if op == "bool" and len(t) == 3:
        return f"{'' if t[2] else 'not '}{show(t[1])}"
    if op == "lang" and len(t) > 1:
        return f"{show(t[1])} in a language"
    if op in ("exists", "first", "only") and len(t) == 3 and isinstance(t[2], tuple):
        return f"{op}({show(t[1])}: {' or '.join(' and '.join(show(g) for g in a) for a in t[2])})"
    if isinstance(op, str):
        return f"{op}({', '.join(show(x) for x in t[1:])})"
    return "(" + ", ".join(show(x) for x in t) + ")"


class TupV:
    """A tuple with unknown parts."""

    __slots__ = ("segs",)

    def __init__(self, segs: Tuple):
        self.segs = tuple(segs)

    def __repr__(self) -> str:
        return f"TupV{self.segs!r}"


class ClassV(Obj):
    __slots__ = ("name", "bases", "mro", "module", "node", "py", "frame", "abstract")

    def __init__(self, name: str, bases: List["ClassV"], module: Any = None, node=None):
        super().__init__()
        self.name = name
        self.bases = bases
        self.module = module
        self.node = node
        self.py: Any = None
        self.mro = _c3(self, bases)

    def __repr__(self) -> str:
        return f"<class {self.name}>"

    def is_sub(self, other: "ClassV") -> bool:
        return other in self.mro


def _c3(cls: Any, bases: List[Any]) -> List[Any]:
    seqs = [list(b.mro) for b in bases] + [list(bases)]
    out = [cls]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if s and s[0] is c:
                del s[0]
    return out


_showing: List[int] = []


def shown(o: Any, text: Any) -> str:
    """A few levels of an object, for messages."""
    if len(_showing) > 5 or id(o) in _showing:
        return f"<{o.cls.name} ...>"
    _showing.append(id(o))
    try:
        return text()
    finally:
        _showing.pop()


class Inst(Obj):
    __slots__ = ("cls",)

    def __init__(self, cls: ClassV):
        super().__init__()
        self.cls = cls

    def __repr__(self) -> str:
        return shown(self, lambda: f"<{self.cls.name} {({k: v for k, v in self.f.items() if not str(k).startswith('#')})!r}>")


class ListV(Inst):
    """A list, deque, set or frozenset, or an instance of a subclass."""

    __slots__ = ()

    def __init__(self, cls: ClassV, segs: Any = ()):
        super().__init__(cls)
        self.f["#segs"] = tuple(segs)

    def __repr__(self) -> str:
        return shown(self, lambda: f"{self.cls.name}{list(self.f['#segs'])!r}")


class DictV(Inst):
    __slots__ = ()

    def __init__(self, cls: ClassV, ents: Any = ()):
        super().__init__(cls)
        self.f["#segs"] = tuple(ents)  # Items of (key, value)

    def __repr__(self) -> str:
        return shown(self, lambda: f"{self.cls.name}{list(self.f['#segs'])!r}")


class IterV(Obj):
    """An iterator: '#rem' is what remains (None: not started)."""

    __slots__ = ("thunk", "is_async", "src", "name")

    def __init__(self, thunk: Callable[[], Any], is_async: bool = False, name: str = ""):
        super().__init__()
        self.thunk = thunk
        self.is_async = is_async
        self.f["#rem"] = None
        self.name = name

    def __repr__(self) -> str:
        return f"<iter {self.name} {self.f['#rem']!r}>"


class CoroV(Obj):
    __slots__ = ("thunk",)

    def __init__(self, thunk: Callable[[], Any]):
        super().__init__()
        self.thunk = thunk


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo: Any, hi: Any, step: Any):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start: Any, stop: Any, step: Any):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self) -> str:
        return f"slice({self.start!r}, {self.stop!r}, {self.step!r})"


class RegexV:
    __slots__ = ("pattern", "flags")

    def __init__(self, pattern: Any, flags: int):
        self.pattern, self.flags = pattern, flags

    def __repr__(self) -> str:
        return f"re.compile({self.pattern!r}, {self.flags})"


class MatchV:
    """A successful regular expression match."""

    __slots__ = ("regex", "text", "kind", "m", "spans")

    def __init__(self, regex: RegexV, text: Any, kind: str, m: Any = None):
        self.regex, self.text, self.kind = regex, text, kind
        self.spans: Any = None
        self.m = m  # Python's own match object, where everything is known


class FuncV(Obj):
    __slots__ = ("node", "module", "closure", "defaults", "kwdefaults", "cls", "name", "isgen")

    def __init__(self, node, module, closure, defaults, kwdefaults, name, isgen):
        super().__init__()
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls: Optional[ClassV] = None
        self.name = name
        self.isgen = isgen

    def __repr__(self) -> str:
        return f"<function {self.name}>"

    @property
    def qualname(self) -> str:
        c = f"{self.cls.name}." if self.cls else ""
        return f"{getattr(self.module, 'name', '?')}.{c}{self.name}"


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func: Any, self_: Any):
        self.func = func
        self.self = self_

    def __repr__(self) -> str:
        return f"<bound {self.func!r}>"


class Builtin:
    __slots__ = ("name", "fn")

    def __init__(self, name: str, fn: Callable[..., Any]):
        self.name = name
        self.fn = fn

    def __repr__(self) -> str:
        return f"<builtin {self.name}>"


class Wrap:
    """property, classmethod, staticmethod."""

    __slots__ = ("kind", "func", "setter")

    def __init__(self, kind: str, func: Any):
        self.kind = kind
        self.func = func
        self.setter = None


class ModuleV(Obj):
    __slots__ = ("name", "path", "tree")

    def __init__(self, name: str, path: str = "", tree: Any = None):
        super().__init__()
        self.name = name
        self.path = path
        self.tree = tree

    def __repr__(self) -> str:
        return f"<module {self.name}>"


class Ext:
    """Something from outside the analysed package that has no model."""

    __slots__ = ("name",)

    def __init__(self, name: str):
        self.name = name

    def __repr__(self) -> str:
        return f"<external {self.name}>"


class Opaque(Obj):
    """A scenario's stand-in for an object, described by its methods."""

    __slots__ = ("name", "attrs", "classes", "term")

    def __init__(self, name: str, attrs: Dict[str, Any], classes: Tuple = (), term=None):
        super().__init__()
        self.name = name
        self.attrs = attrs
        self.classes = classes
        self.term = term or ("opaque", name)

    def __repr__(self) -> str:
        return f"<opaque {self.name}>"


class Frame(Obj):
    __slots__ = ("parent", "module", "func", "isgen", "globals_", "nonlocals", "self_cls")

    def __init__(self, parent, module, func=None):
        super().__init__()
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_: set = set()
        self.nonlocals: set = set()


class Poison:
    """The value of a variable that depends on the last element of a loop."""

    def __repr__(self) -> str:
        return "<last element's>"


class Unknown(Poison):
    """What a statement that can't be analysed defines."""

    def __init__(self, why: str):
        self.why = why

    def __repr__(self) -> str:
        return f"<unknown: {self.why}>"


class Later(Poison):
    """What a loop leaves in a variable, worked out when it is read."""

    def __init__(self, force: Any):
        self.force = force


POISON = Poison()


class Raised(Exception):
    """The analysed program raises."""

    def __init__(self, exc: Any, where: str = ""):
        super().__init__(repr(exc))
        self.exc = exc
        self.where = where


def undecided(msg: str) -> Any:
    raise Undecided(msg)
